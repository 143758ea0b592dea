"""L01: a fit of data distributed over ranks equals the fit of the pooled data.

The same history of fit operations runs on n simulated ranks (any split of the rows) and in a
one-rank world holding all rows.  After every operation the public state of the model is
compared: identical on all ranks, and equal to the pooled fit.  Fault: the Cholesky
factorisation fails on some ranks only (rounding on different hosts); the ranks must then
still agree.
"""
from __future__ import annotations

import numpy as np

from . import common as C
from simlib import core
from simlib.runner import Result

PROPERTY = "L01"
RULE = "nontrivial: more than one rank; keyed by split, model kind and fitted parameters"
REAL = ["GPSKet.supervised (all fit classes), numba kernels, scipy solvers", "netket mpi_sum"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
ASSUMPTIONS = ["every rank holds at least one row (predict rejects empty sets)",
               "noise optimisation of the exponential fit (iterative line search) is compared "
               "between ranks, not with the pooled run"]
BUDGET = {"quick": (60, 10, 45), "thorough": (2000, 40, 1500)}

OBS = ("epsilon", "bias", "alpha_mat", "alpha_bias", "beta", "noise_tilde", "weights")


def gen_block(rng, b):
    return {"n": [2, 3, 4, 2, 5][b % 5],
            "cls": ["log", "exp", "glm", "log", "exp", "explog"][b % 6]}


def gen_case(blk, rng, i):
    n = blk["n"]
    cls = blk["cls"]
    case = {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6)}
    case["L"] = rng.randint(2, 5)
    case["D"] = rng.choice([2, 2, 4])
    case["M"] = rng.randint(1, 3)
    case["T"] = rng.choice([0, 0, 1, 2])
    case["rows"] = [rng.choice([1, 1, 2, 3, 6]) for _ in range(n)]
    case["cplx"] = rng.random() < 0.6
    case["expand"] = rng.random() < 0.5
    case["bias"] = rng.random() < 0.3
    case["weights"] = rng.random() < 0.5
    case["prior"] = rng.choice([0.0, 0.0, 0.3, 1.0])
    case["zeros"] = cls == "exp" and not case["weights"] and rng.random() < 0.25
    case["pre"] = cls in ("log", "exp") and not case["bias"] and rng.random() < 0.15
    ops = []
    for _ in range(rng.randint(1, 4)):
        op = {"ref": rng.choice(["int", "array"]), "site": rng.randrange(10**6),
              "rvm": rng.random() < 0.4, "alpha": rng.random() < 0.6,
              "noise": rng.random() < (0.2 if cls.startswith("exp") else 0.5), "it": rng.choice([1, 1, 2]),
              "fresh": rng.random() < 0.3}
        if cls in ("exp", "log") and rng.random() < 0.25:
            op["grow"] = rng.randint(1, 3)
        if cls == "glm":
            op["init"] = rng.random() < 0.5
            op["irls"] = rng.randint(1, 2) if not case["cplx"] and rng.random() < 0.4 else 0
            op["it"] = 1
            op["min"] = rng.choice([None, None, "newton", "line"])
        ops.append(op)
    case["ops"] = ops
    case["fail"] = []
    if rng.random() < 0.2 and not any(o.get("irls") for o in ops):
        case["fail"] = sorted(rng.sample(range(n), rng.randint(1, n - 1)))
        case["failat"] = rng.randint(0, 3)
    return case


def shrink(case):
    for k in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield {**case, "ops": case["ops"][:k] + case["ops"][k + 1:]}
    for k, v in (("fail", []), ("T", 0), ("bias", False), ("weights", False), ("prior", 0.0),
                 ("zeros", False), ("pre", False), ("M", 1), ("L", 2), ("D", 2),
                 ("cplx", False), ("expand", False)):
        if case[k] != v:
            yield {**case, k: v}
    if case["n"] > 2:
        yield {**case, "n": 2, "rows": case["rows"][:2], "fail": [r for r in case["fail"] if r < 2]}
    if max(case["rows"]) > 1:
        yield {**case, "rows": [max(1, r // 2) for r in case["rows"]]}


def data(case, k):
    """Data set number k: configurations, targets, weightings, features (all rows)."""
    rs = np.random.RandomState((case["seed"] * 13 + k) % 2**31)
    N = sum(case["rows"])
    shape = (N, case["L"]) + ((case["T"],) if case["T"] else ())
    confs = rs.randint(0, case["D"], size=shape)
    amp = np.exp(0.5 * rs.randn(N))
    if case["cplx"]:
        amp = amp * np.exp(2j * np.pi * rs.rand(N))
    if case["zeros"] and N > 3:
        amp[rs.randint(N)] = 0.0
    if case["cls"] == "log":
        amp = rs.randn(N) + (1j * rs.randn(N) if case["cplx"] else 0.0)
    w = 0.2 + rs.rand(N)
    return confs, amp, w


def features(case):
    rs = np.random.RandomState(case["seed"] % 2**31)
    N = sum(case["rows"])
    F = rs.randn(N, 4)
    if case["cplx"]:
        F = F + 1j * rs.randn(N, 4)
    return F


class Failing:
    """Factorisations fail on chosen ranks (from the given call on, per rank)."""

    def __init__(self, ranks, at):
        self.ranks, self.at = ranks, at
        self.calls = {}
        self.fired = 0

    def __enter__(self):
        import scipy.linalg as sl
        self.mods = [(sl, "cholesky", sl.cholesky), (sl, "cho_factor", sl.cho_factor),
                     (np.linalg, "cholesky", np.linalg.cholesky)]
        for m, name, f in self.mods:
            setattr(m, name, self.wrap(f))
        return self

    def wrap(self, f):
        def g(*a, **k):
            sim = core.CURRENT
            if sim is not None and sim.current is not None:
                r = sim.current
                c = self.calls[r] = self.calls.get(r, 0) + 1
                if r in self.ranks and c == self.at + 1:
                    sim.fire("factorisation fails on one rank")
                    self.fired += 1
                    raise np.linalg.LinAlgError("simulated: not positive definite")
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for m, name, f in self.mods:
            setattr(m, name, f)


def make_model(case, K):
    from GPSKet.supervised import supervised_qgps as sq
    rs = np.random.RandomState((case["seed"] + 5) % 2**31)
    eps = 1.0 + 0.3 * rs.randn(case["D"], case["M"], case["L"])
    if case["cplx"]:
        eps = eps + 0.3j * rs.randn(*eps.shape)
    kw = dict(init_alpha=1.0, init_noise_tilde=0.3, include_bias=case["bias"], K=K)
    if case["cls"] == "glm":
        return sq.QGPSGenLinMod(eps, **kw)
    if case["cls"] == "log":
        return sq.QGPSLogSpaceFit(eps, complex_expand=case["expand"], **kw)
    return sq.QGPSLearningExp(eps, complex_expand=case["expand"],
                              iterative_noise_est=case["cls"] == "explog", **kw)


def observe(m):
    out = {}
    for k in OBS:
        v = getattr(m, k, None)
        if v is not None:
            out[k] = np.array(v)
    return out


class Minimum:
    """A short damped Newton minimisation, and a line search: functions a user passes in."""

    def __init__(self, seen):
        self.seen = seen

    def newton(self, fun, x0, jac=None, hess=None):
        x = np.array(x0)
        for _ in range(2):
            g, h = jac(x), hess(x)
            self.seen += [fun(x), g, h]
            x = x - 0.3 * np.linalg.solve(h + (1.0 + np.max(np.abs(h))) * np.eye(len(x)), g)
        self.x = x
        return self

    def line(self, fun, grad, x, direction):
        self.seen += [fun(x), grad(x), np.array(direction)]
        return (0.5,)


def history(case, lo, hi, jitter=None):
    """The operations on rows lo..hi; returns one observation per operation."""
    pre = case["pre"]
    if jitter is not None:
        return history_of(case, lo, hi, lambda a, k: a * (
            1 + 1e-11 * np.random.RandomState(jitter + k).randn(*a.shape)))
    return history_of(case, lo, hi, lambda a, k: a)


def history_of(case, lo, hi, jit):
    pre = case["pre"]
    m = make_model(case, features(case)[lo:hi].copy() if pre else None)
    out = []
    cur = 0
    kept = []
    for j, op in enumerate(case["ops"]):
        if op["fresh"] and not pre:
            cur += 1
        confs, amp, w = data(case, cur)
        confs, amp, w = confs[lo:hi].copy(), jit(amp[lo:hi].copy(), 2 * j), jit(w[lo:hi].copy(), 2 * j + 1)
        rs = np.random.RandomState(op["site"])
        ref = int(rs.randint(case["L"]))
        if op["ref"] == "array":
            ref = rs.randint(0, case["L"], size=case["M"])
        wt = w if case["weights"] else None
        kept.append((confs, confs.copy(), amp, amp.copy(), w, w.copy(), ref, np.copy(ref)))
        obs = {}
        both = True
        kw = dict(weightings=wt, prior_mean=case["prior"])
        if "grow" in op and not case["zeros"]:
            m.fit_step_growing_RVM(confs, amp, ref, op["grow"], **kw)
        elif case["cls"] == "log":
            # the noise update of expanded complex models is not defined in this class
            noise = op["noise"] and not (case["cplx"] and case["expand"])
            m.fit_step(confs, amp, ref, opt_alpha=op["alpha"], opt_noise=noise,
                       max_alpha_beta_iterations=op["it"], rvm=op["rvm"], **kw)
        elif case["cls"] == "glm":
            seen = []
            mi = Minimum(seen)
            if op.get("min") == "newton":
                kw["minimize_fun"] = mi.newton
            elif op.get("min") == "line":
                kw["linesearch_fun"] = mi.line
            m.fit_step(confs, amp, ref, opt_alpha=op["alpha"], opt_beta=op["noise"],
                       max_alpha_beta_iterations=1, rvm=op["rvm"], log_fit_init=op["init"],
                       it_rew_lst_sq_steps=op["irls"], **kw)
        else:
            noise = op["noise"] and not case["zeros"] and not pre
            both = not noise
            m.fit_step(confs, amp, ref, opt_alpha=op["alpha"], opt_noise=noise,
                       noise_bounds=[(np.log(1e-3), np.log(1e2))],
                       max_noise_iterations=2, max_alpha_iterations=op["it"], rvm=op["rvm"], **kw)
        obs["state"] = observe(m)
        extra = {}
        if case["cls"] == "glm" and seen:
            extra["loss, gradient and Hessian given to the minimiser"] = \
                np.concatenate([np.ravel(v) for v in seen])
        if not pre:
            extra["squared error"] = m.squared_error(confs, amp, weightings=wt)
            if case["cls"] != "log" and case["cplx"] and not case["zeros"]:
                extra["squared error (log)"] = m.squared_error_log_space(confs, amp, weightings=wt)
        if case["cls"] in ("log", "glm") or not (case["zeros"] and case["weights"]):
            extra["log marginal likelihood"] = m.log_marg_lik()
        if case["cls"] != "glm":
            extra["alpha derivative"] = m.log_marg_lik_alpha_der()
            if not case["zeros"] and not pre:
                extra["noise derivative"] = m.log_marg_lik_noise_der()
        else:
            extra["noise derivative"] = m.log_marg_lik_beta_der()
        obs["extra"] = {k: np.array(v) for k, v in extra.items()}
        obs["both"] = both
        if not pre:
            obs["pred"] = np.array(m.predict(confs))
        out.append(obs)
        for c, c0, a, a0, ww, w0, f, f0 in kept:
            if not (np.array_equal(c, c0) and np.array_equal(a, a0) and np.array_equal(ww, w0)
                    and np.array_equal(f, f0)):
                obs["changed"] = True
    return out


def away(a, b, tol):
    """Deviation beyond rounding (derivatives at an optimum are zero up to rounding)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return not np.array_equal(np.isfinite(a), np.isfinite(b))
    scale = max(1.0, float(np.max(np.abs(b)))) if b.size else 1.0
    return bool(b.size) and not np.max(np.abs(a - b)) <= tol * scale


def unstable(a, b):
    """The pooled fit amplifies a relative change of 1e-11 of its data beyond 1e-7."""
    if np.any(np.asarray(b["state"].get("noise_tilde", 1.0)) < 1e-6):
        return True
    return any(away(a[part][k], b[part][k], 1e-7) for part in ("state", "extra") for k in b[part])


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "GPSKet.supervised"), prelude=share_numba,
                    key="sup")
    w1 = C.get_world(1, packages=("netket", "GPSKet", "GPSKet.supervised"), prelude=share_numba,
                     key="sup")
    off = np.concatenate([[0], np.cumsum(case["rows"])])

    def prog(r):
        return history(case, off[r], off[r + 1])

    with np.errstate(all="ignore"):
        # a history that fails for the pooled data as well says nothing
        scratch = Result()
        sim1, out1 = C.run_job(case, 1, lambda r: history(case, 0, off[-1]), scratch, world=w1,
                               allow_exc=True)
        pooled_exc = out1[0][0] == "exc"
        # where the pooled fit itself is not reproducible (an exact fit drives the noise to
        # zero, weights that vanish) two summation orders need not agree
        shaken = [C.run_job(case, 1, lambda r: history(case, 0, off[-1], jitter=q), Result(), world=w1,
                            allow_exc=True)[1][0] for q in (1, 1001)] if not pooled_exc else []
        if pooled_exc and core.HarnessError in type(out1[0][1]).__mro__:
            raise out1[0][1]
        with Failing(case["fail"], case.get("failat", 0)) as f:
            sim, out = C.run_job(case, n, prog, res, world=w, allow_exc=pooled_exc or bool(case["fail"]))
    if res.violation:
        return res
    if pooled_exc:
        res.note(("pooled fails", type(out1[0][1]).__name__))
        res.probe("pooled fit raises")
        if not any(o[0] == "exc" for o in out) and not case["fail"]:
            res.bad("accepts", f"the pooled fit raises {core.label_of(out1[0][1])}, the distributed one "
                               "does not")
        return res
    if f.fired and any(o[0] != "ok" for o in out):
        if all(o[0] == "exc" for o in out):
            res.probe("all ranks raise after a failed factorisation")
            return res
        res.bad("fault", "a failed factorisation on ranks "
                f"{case['fail']} leaves outcomes {[o[0] if o[0] == 'ok' else core.label_of(o[1]) if o[1] is not None else o[0] for o in out]}")
        return res
    one = out1[0][1]
    vals = C.values(out)
    for j in range(len(case["ops"])):
        what = f"{case['cls']} operation {j}"
        for r in range(n):
            if vals[r][j].get("changed"):
                res.bad("input-changed", f"{what}: rank {r}: an array of the caller was modified")
                return res
        ok = True
        for part in ("state", "extra"):
            for k in vals[0][j][part]:
                ok = ok and C.same_on_ranks([v[j][part][k] for v in vals], f"{what}: {k}", res)
        if not ok:
            return res
        if one[j].get("changed"):
            res.bad("input-changed", f"{what}: serial: an array of the caller was modified")
            return res
        if any(v[0] != "ok" or unstable(v[1][j], one[j]) for v in shaken):
            res.probe("ill-conditioned fit: compared between ranks only")
            break
        if f.fired or not one[j]["both"]:
            # from here on the histories may differ from the pooled one
            res.probe("compared between ranks only")
            break
        for part in ("state", "extra"):
            for k, v in one[j][part].items():
                if away(vals[0][j][part][k], v, 1e-6):
                    res.bad("pooled", f"{what} on {n} ranks, rows {case['rows']}: {k} deviates from the "
                            f"pooled fit: {vals[0][j][part][k].ravel()[:4]} vs {v.ravel()[:4]}")
                    return res
        if "pred" in one[j]:
            if away(np.concatenate([v[j]["pred"] for v in vals]), one[j]["pred"], 1e-6):
                res.bad("prediction", f"{what}: predictions differ from the pooled model")
                return res
        res.probe("operations compared with the pooled fit")
    res.note((case["rows"], case["cls"], C.h(*[vals[0][-1]["state"]["epsilon"]])))
    res.key = res.digest
    return res


# ---------------------------------------------------------------------------
_dispatchers = {}


def share_numba(r):
    """The rank copies of a module share their compiled numba functions (pure functions)."""
    import numba
    if getattr(numba.njit, "_shared", False):
        return
    real = numba.njit

    def njit(*a, **k):
        if a and callable(a[0]):
            return wrap(a[0], real)
        dec = real(*a, **k)
        return lambda f: wrap(f, dec)

    def wrap(f, dec):
        key = (f.__module__, f.__qualname__, f.__code__.co_firstlineno, f.__code__.co_filename)
        if key not in _dispatchers:
            _dispatchers[key] = dec(f)
        return _dispatchers[key]
    njit._shared = True
    numba.njit = njit
