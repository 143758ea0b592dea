"""D02: steps of the RMSProp-regularised SR driver are the pooled ones on every rank."""
from __future__ import annotations

import numpy as np

from . import common as C
from . import ref
from simlib.runner import Result

PROPERTY = "D02"
RULE = "nontrivial: at least two steps (history) or two ranks; keyed by samples and parameters"
REAL = ["VMC_SRRMSProp driver", "netket MCState, samplers, jacobian, optimisers", "GPSKet qGPS"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (24, 5, 48), "thorough": (600, 10, 1500)}


def gen_block(rng, b):
    chains = rng.choice([1, 2])
    length = rng.choice([2, 3])
    per = chains * length
    return {"n": [2, 3, 1, 2, 4, 3][b % 6], "sz": rng.random() < 0.5, "chains": chains,
            "len": length, "chunk": rng.choice([None] + [d for d in range(1, per + 1) if per % d == 0]),
            "mode": rng.choice(["complex", "complex", "real", "complexreal"]),
            "sched_shift": rng.random() < 0.4}


def gen_case(blk, rng, i):
    return {**blk, **C.sched_fields(rng), "scale": rng.choice([0.1, 0.3]),
            "seed": rng.randrange(10**6), "steps": rng.randint(1, 4),
            "lr": rng.choice([0.01, 0.05]), "shift": rng.choice([0.01, 0.1, 0.5]),
            "decay": rng.choice([0.9, 0.5]), "init": rng.choice([0.0, 0.0, 0.3]),
            "eps": rng.choice([1e-8, 0.1])}


def shrink(case):
    if case["steps"] > 1:
        yield {**case, "steps": case["steps"] - 1}
    if case["n"] > 2:
        yield {**case, "n": case["n"] - 1}
    if case["init"]:
        yield {**case, "init": 0.0}


def shift_at(case, t):
    return case["shift"] / (1.0 + 0.5 * t) if case["sched_shift"] else case["shift"]


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    L = 6 if case["sz"] else 4
    keep = {}
    mode = "real" if case["mode"] == "real" else "complex"

    def prog(r):
        import netket as nk
        import jax.numpy as jnp
        from GPSKet.driver import VMC_SRRMSProp
        hi, g, ha = C.spin_system(L, case["sz"])
        if case["mode"] == "complexreal":
            ma = C.qgps_complexreal(hi)
        else:
            ma = C.qgps(hi, 2, case["mode"])
        mk = nk.sampler.MetropolisExchange if case["sz"] else nk.sampler.MetropolisLocal
        kw = {"graph": g} if case["sz"] else {}
        sa = mk(hi, n_chains_per_rank=case["chains"], **kw)
        vs = nk.vqs.MCState(sa, ma, n_samples=n * case["chains"] * case["len"], n_discard_per_chain=1,
                            seed=case["seed"], sampler_seed=case["seed"] + 1, chunk_size=case["chunk"])
        vs.parameters = C.scaled(vs.parameters, case["scale"], case["seed"])
        sh = (lambda t: case["shift"] / (1.0 + 0.5 * t)) if case["sched_shift"] else case["shift"]
        d = VMC_SRRMSProp(ha, nk.optimizer.Sgd(case["lr"]), diag_shift=sh, decay=case["decay"],
                          eps=case["eps"], initial_scale=case["init"], jacobian_mode=mode,
                          linear_solver_fn=C.dense_solve,
                          variational_state=vs)
        if r == 0:
            keep.update(hi=hi, ha=ha, apply=vs._apply_fun)
        obs = []
        for _ in range(case["steps"]):
            p0 = C.tree_np(vs.parameters)
            seen = {}
            orig = d.update_parameters

            def grab(dp):
                seen["x"] = np.array(vs.samples)
                return orig(dp)
            d.update_parameters = grab
            d.advance(1)
            del d.update_parameters
            obs.append({"p0": p0, "p1": C.tree_np(vs.parameters), **seen,
                        "mean": complex(d.energy.mean), "var": float(d.energy.variance)})
        return obs

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    obs = C.values(out)
    with w.as_rank(0):
        R = ref.Ref(keep["hi"], keep["ha"], keep["apply"])
        ema = None
        for t in range(case["steps"]):
            o = [obs[r][t] for r in range(n)]
            C.same_on_ranks([C.ravel(q["p1"]) for q in o], f"step {t} parameters", res)
            C.same_on_ranks([q["mean"] for q in o], f"step {t} energy", res, 1e-10)
            X = np.concatenate([q["x"].reshape(-1, L) for q in o])
            N = len(X)
            p0 = o[0]["p0"]
            E = R.eloc(p0, X)
            m = E.mean()
            v = np.mean(abs(E - m) ** 2)
            if abs(o[0]["mean"] - m) > 1e-8 * max(1, abs(m)):
                res.bad("energy-mean", f"step {t}: {o[0]['mean']} instead of {m}")
            if abs(o[0]["var"] - v) > 1e-7 * max(1, v):
                res.bad("energy-variance", f"step {t}: {o[0]['var']} instead of {v}")
            J = ref.jac(R.apply, p0, X, mode)
            dJ = J - J.mean(axis=0)
            # The driver builds its system from sums scaled by the number of samples once more;
            # the scale only matters relative to eps and the initial running average.
            g = 2 * np.real(dJ.conj().T @ (E - m)) * N if mode == "complex" else \
                2 * (dJ.T @ (E - m).real) * N
            S = np.real(dJ.conj().T @ dJ) * N
            if ema is None:
                ema = np.full(len(g), case["init"])
            ema = case["decay"] * ema + (1 - case["decay"]) * g ** 2
            hat = ema / (1 - case["decay"] ** (t + 1))
            A = S + shift_at(case, t) * np.diag(np.sqrt(hat) + case["eps"])
            f0, f1 = C.ravel(p0), C.ravel(o[0]["p1"])
            cond = np.linalg.cond(A)
            if not np.isfinite(cond) or cond > 1e10:
                res.probe("ill-conditioned")
                res.note(C.h(X, f1))
                continue
            up = np.linalg.solve(A, g)
            if np.iscomplexobj(f0):
                k = len(f0)
                up = up[:k] + 1j * up[k:]
            got = (f0 - f1) / case["lr"]
            scale = max(1e-3, np.max(np.abs(up)))
            e = np.max(np.abs(got - up)) / scale
            if not e <= 1e-5 + 1e-14 * cond:
                res.bad("update", f"step {t} mode {case['mode']} {n} ranks chunk {case['chunk']}: "
                                  f"update deviates by {e:.3g} relative to {scale:.3g}")
            res.note(C.h(X, f1))
            res.probe("checked step")
            res.probe("step with history", t > 0)
    if n > 1 or case["steps"] > 1:
        res.key = res.digest
    return res
