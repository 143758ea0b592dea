"""D01: a minSR step is the pooled serial step on every rank.

Workload: minSR driver steps on 1-4 ranks with plain and unique-sample states, seeded chunk
sizes, solvers, modes and step counts.  Oracle: numpy minSR over the pooled samples.
"""
from __future__ import annotations

import numpy as np

from . import common as C
from . import ref
from simlib.runner import Result

PROPERTY = "D01"
RULE = "nontrivial: more than one rank or chunk; keyed by samples, parameters and updates of the run"
REAL = ["minSRVMC driver", "MCStateUniqueSamples, netket MCState, VMC driver, samplers, jacobian",
        "GPSKet qGPS"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (24, 4, 48), "thorough": (600, 8, 1500)}
SHIFT = 0.05


def gen_block(rng, b):
    chains = rng.choice([1, 2])
    length = rng.choice([1, 2, 3])
    per = chains * length
    return {"n": [2, 3, 1, 2, 4, 3][b % 6], "sz": rng.random() < 0.5, "chains": chains,
            "len": length, "chunk": rng.choice([None] + [d for d in range(1, per + 1) if per % d == 0]),
            "mode": rng.choice(["holomorphic", "holomorphic", "complex", "real", "complexreal"]),
            "unique": rng.random() < 0.5, "solver": rng.choice(["reg", "reg", "reg", "default"])}


def gen_case(blk, rng, i):
    return {**blk, **C.sched_fields(rng), "scale": rng.choice([0.1, 0.3]),
            "limit": rng.choice([1, 2]), "seed": rng.randrange(10**6), "steps": rng.randint(1, 3),
            "lr": rng.choice([0.01, 0.05])}


def shrink(case):
    if case["steps"] > 1:
        yield {**case, "steps": case["steps"] - 1}
    if case["len"] > 1:
        yield {**case, "len": 1, "chunk": None}
    if case["n"] > 2:
        yield {**case, "n": case["n"] - 1}


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    L = 6 if case["sz"] else 4
    keep = {}
    mode = {"complexreal": "complex"}.get(case["mode"], case["mode"])

    def prog(r):
        import netket as nk
        import jax.numpy as jnp
        from GPSKet.driver import minSRVMC
        from GPSKet.vqs.mc.mc_state.state_unique_samples import MCStateUniqueSamples
        hi, g, ha = C.spin_system(L, case["sz"])
        # 'complexreal': real parameters, complex amplitudes
        dt = "complex" if case["mode"] in ("holomorphic", "complex") else "real"
        if case["mode"] == "complexreal":
            ma = C.qgps_complexreal(hi)
        else:
            ma = C.qgps(hi, 2, dt)
        mk = nk.sampler.MetropolisExchange if case["sz"] else nk.sampler.MetropolisLocal
        kw = {"graph": g} if case["sz"] else {}
        sa = mk(hi, n_chains_per_rank=case["chains"], **kw)
        args = dict(n_samples=n * case["chains"] * case["len"], n_discard_per_chain=1,
                    seed=case["seed"], sampler_seed=case["seed"] + 1, chunk_size=case["chunk"])
        if case["unique"]:
            vs = MCStateUniqueSamples(sa, ma, max_sampling_steps=case["limit"], **args)
        else:
            vs = nk.vqs.MCState(sa, ma, **args)
        vs.parameters = C.scaled(vs.parameters, case["scale"], case["seed"])
        kw = {}
        if case["solver"] == "reg":
            kw["solver"] = lambda A, b: jnp.linalg.solve(A + SHIFT * jnp.eye(A.shape[0]), b)
        d = minSRVMC(ha, nk.optimizer.Sgd(case["lr"]), variational_state=vs, mode=mode, **kw)
        if r == 0:
            keep.update(hi=hi, ha=ha, apply=vs._apply_fun)
        obs = []
        for _ in range(case["steps"]):
            p0 = C.tree_np(vs.parameters)
            seen = {}
            # the samples of the step: taken before the parameter update resets them
            orig = d.update_parameters

            def grab(dp):
                if case["unique"]:
                    x, c = vs.samples_with_counts
                else:
                    x, c = vs.samples, None
                seen.update(x=np.array(x), c=None if c is None else np.array(c))
                return orig(dp)
            d.update_parameters = grab
            d.advance(1)
            del d.update_parameters
            obs.append({"p0": p0, "p1": C.tree_np(vs.parameters), **seen,
                        "mean": complex(d.energy.mean), "var": float(d.energy.variance)})
        return obs

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    obs = C.values(out)
    with w.as_rank(0):
        R = ref.Ref(keep["hi"], keep["ha"], keep["apply"])
        for j in range(case["steps"]):
            o = [obs[r][j] for r in range(n)]
            C.same_on_ranks([C.ravel(q["p1"]) for q in o], f"step {j} parameters", res)
            C.same_on_ranks([q["mean"] for q in o], f"step {j} energy", res, 1e-10)
            C.same_on_ranks([q["var"] for q in o], f"step {j} variance", res, 1e-9)
            X = np.concatenate([q["x"].reshape(-1, L) for q in o])
            if case["unique"]:
                Wt = np.concatenate([q["c"].reshape(-1) for q in o])
            else:
                Wt = np.full(len(X), 1 / len(X))
            p0 = o[0]["p0"]
            E = R.eloc(p0, X)
            m = np.sum(Wt * E)
            v = np.sum(Wt * abs(E - m) ** 2)
            if abs(o[0]["mean"] - m) > 1e-8 * max(1, abs(m)):
                res.bad("energy-mean", f"step {j}: {o[0]['mean']} instead of {m}")
            if abs(o[0]["var"] - v) > 1e-7 * max(1, v):
                res.bad("energy-variance", f"step {j}: {o[0]['var']} instead of {v}")
            O = ref.jac(R.apply, p0, X, mode)
            dO = np.sqrt(Wt)[:, None] * (O - np.sum(Wt[:, None] * O, axis=0))
            eps = np.sqrt(Wt) * (E - m)
            T = dO @ dO.conj().T
            if case["solver"] == "reg":
                x = np.linalg.solve(T + SHIFT * np.eye(len(X)), eps)
                tol = 1e-6
            else:
                s = np.linalg.svd(T, compute_uv=False)
                rel = s / max(s[0], 1e-300)
                if s[0] < 1e-8 or np.any((rel > 1e-14) & (rel < 1e-9)):
                    res.probe("ill-conditioned skipped")
                    continue
                x = np.linalg.lstsq(T, eps, rcond=1e-12)[0]
                tol = 1e-4
            up = dO.conj().T @ x
            f0, f1 = C.ravel(p0), C.ravel(o[0]["p1"])
            if mode != "holomorphic" and np.iscomplexobj(f0):
                k = len(f0)
                up = up[:k] + 1j * up[k:]
            if not np.iscomplexobj(f0):
                up = up.real
            got = (f0 - f1) / case["lr"]
            scale = max(1e-3, np.max(np.abs(up)))
            e = np.max(np.abs(got - up)) / scale
            if not e <= tol:
                res.bad("update", f"step {j} mode {case['mode']} {n} ranks chunk {case['chunk']}: "
                                  f"update deviates by {e:.3g} relative to {scale:.3g}")
            res.note(C.h(X, Wt, f1))
            res.probe("weighted", np.ptp(Wt) > 1e-9)
            res.probe("chunked", case["chunk"] is not None and case["chunk"] < case["chains"] * case["len"])
    if n > 1 or case["chunk"]:
        res.key = res.digest
    return res
