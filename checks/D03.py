"""D03: RMSProp-regularised geometric tensors and preconditioner act as the pooled system."""
from __future__ import annotations

import numpy as np

from . import common as C
from . import ref
from simlib.runner import Result

PROPERTY = "D03"
RULE = "nontrivial: more than one rank or step; keyed by samples, vectors and solutions"
REAL = ["QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp, SRRMSProp", "netket MCState, samplers, solvers",
        "MCStateUniqueSamples", "GPSKet qGPS"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (24, 4, 48), "thorough": (600, 8, 1500)}


def gen_block(rng, b):
    chains = rng.choice([1, 2])
    length = rng.choice([1, 2, 3])
    per = chains * length
    kind = rng.choice(["dense", "dense", "otf"])
    return {"n": [2, 3, 1, 2, 4, 3][b % 6], "sz": rng.random() < 0.5, "chains": chains,
            "len": length,
            "chunk": None if kind == "otf" else rng.choice([None] + [d for d in range(1, per + 1) if per % d == 0]),
            "kind": kind, "dtype": "real" if kind == "otf" else rng.choice(["real", "complex"]),
            "unique": kind == "dense" and rng.random() < 0.3}


def gen_case(blk, rng, i):
    return {**blk, **C.sched_fields(rng), "scale": rng.choice([0.1, 0.3]),
            "seed": rng.randrange(10**6), "steps": rng.randint(1, 3),
            "shift": rng.choice([0.01, 0.1, 0.5]), "scheduled": rng.random() < 0.3,
            "decay": rng.choice([0.9, 0.5]), "init": rng.choice([0.0, 0.2]),
            "eps": rng.choice([1e-4, 0.1])}


def shrink(case):
    if case["steps"] > 1:
        yield {**case, "steps": case["steps"] - 1}
    if case["n"] > 2:
        yield {**case, "n": case["n"] - 1}


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    L = 6 if case["sz"] else 4
    keep = {}
    cplx = case["dtype"] == "complex"

    def shift_at(t):
        return case["shift"] / (1.0 + t) if case["scheduled"] else case["shift"]

    def prog(r):
        import netket as nk
        import jax
        import jax.numpy as jnp
        from GPSKet.optimizer import SRRMSProp
        from GPSKet.optimizer.qgt import QGTJacobianDenseRMSProp, QGTOnTheFlyRMSProp
        from GPSKet.vqs.mc.mc_state.state_unique_samples import MCStateUniqueSamples
        hi, g, ha = C.spin_system(L, case["sz"])
        ma = C.qgps(hi, 2, case["dtype"])
        mk = nk.sampler.MetropolisExchange if case["sz"] else nk.sampler.MetropolisLocal
        kw = {"graph": g} if case["sz"] else {}
        sa = mk(hi, n_chains_per_rank=case["chains"], **kw)
        args = dict(n_samples=n * case["chains"] * case["len"], n_discard_per_chain=1,
                    seed=case["seed"], sampler_seed=case["seed"] + 1, chunk_size=case["chunk"])
        if case["unique"]:
            vs = MCStateUniqueSamples(sa, ma, max_sampling_steps=2, **args)
        else:
            vs = nk.vqs.MCState(sa, ma, **args)
        base = vs.parameters
        vs.parameters = C.scaled(base, case["scale"], case["seed"])
        if r == 0:
            keep.update(hi=hi, ha=ha, apply=vs._apply_fun)
        make = QGTJacobianDenseRMSProp if case["kind"] == "dense" else QGTOnTheFlyRMSProp
        kw = {} if case["kind"] == "otf" else {"mode": "complex" if cplx else "real"}
        pre = SRRMSProp(vs.parameters, qgt=make, solver=nk.optimizer.solver.cholesky,
                        diag_shift=(lambda t: case["shift"] / (1.0 + t)) if case["scheduled"] else case["shift"],
                        decay=case["decay"], eps=case["eps"], initial_scale=case["init"], **kw)
        obs = []
        for t in range(case["steps"]):
            if t:
                vs.parameters = C.scaled(base, case["scale"], case["seed"] + 31 * t)
            if case["unique"]:
                x, c = vs.samples_with_counts
            else:
                x, c = vs.samples, None
            # positive running average, the same on all ranks
            ema = jax.tree_util.tree_map(
                lambda z: jnp.asarray((lambda d: d.real ** 2 + (1j * d.imag ** 2 if cplx else 0))(np.asarray(z))),
                ref.seeded_like(vs.parameters, case["seed"] + 5 * t))
            v = ref.seeded_like(vs.parameters, case["seed"] + 5 * t + 1)
            S = make(vs, ema, diag_shift=case["shift"], eps=case["eps"], **kw)
            y = S @ v
            dense = np.array(S.to_dense())
            gr = ref.seeded_like(vs.parameters, case["seed"] + 5 * t + 2)
            x0 = pre(vs, gr, t)
            obs.append({"x": np.array(x), "c": None if c is None else np.array(c),
                        "p": C.tree_np(vs.parameters), "ema": C.ravel(ema), "v": C.ravel(v),
                        "y": C.ravel(y), "dense": dense, "g": C.ravel(gr), "sol": C.ravel(x0)})
        return obs

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    obs = C.values(out)

    def split(z):
        return np.concatenate([z.real, z.imag]) if cplx else z

    with w.as_rank(0):
        R = ref.Ref(keep["hi"], keep["ha"], keep["apply"])
        acc = None
        for t in range(case["steps"]):
            o = [obs[r][t] for r in range(n)]
            for k in ("y", "dense", "sol"):
                C.same_on_ranks([q[k] for q in o], f"step {t} {k}", res, 1e-9)
            X = np.concatenate([q["x"].reshape(-1, L) for q in o])
            Wt = (np.concatenate([q["c"].reshape(-1) for q in o]) if case["unique"]
                  else np.full(len(X), 1 / len(X)))
            q = o[0]
            S = R.qgt(q["p"], X, Wt, "complex" if cplx else "real")
            lam = case["shift"]
            A = (1 - lam) * S + lam * np.diag(np.sqrt(split(q["ema"])) + case["eps"])
            if C.differs(q["dense"], A, 1e-7):
                res.bad("dense", f"step {t} {case['kind']} {n} ranks: matrix deviates by {C.err(q['dense'], A):.3g}")
            y = A @ split(q["v"])
            if C.differs(split(q["y"]), y, 1e-7):
                res.bad("matvec", f"step {t} {case['kind']} {n} ranks: product deviates by "
                                  f"{C.err(split(q['y']), y):.3g}")
            g = split(q["g"])
            acc = np.full(len(g), case["init"]) if acc is None else acc
            if t == 0 and cplx:
                # the initial value of the running average is real
                acc[len(g) // 2:] = 0.0
            acc = case["decay"] * acc + (1 - case["decay"]) * g ** 2
            lam = shift_at(t)
            A = (1 - lam) * S + lam * np.diag(
                np.sqrt(acc / (1 - case["decay"] ** (t + 1))) + case["eps"])
            sol = np.linalg.solve(A, g)
            if C.differs(split(q["sol"]), sol, 1e-6 + 1e-14 * np.linalg.cond(A)):
                res.bad("solution", f"step {t} {case['kind']} {n} ranks: solution deviates by "
                                    f"{C.err(split(q['sol']), sol):.3g}")
            res.note(C.h(X, q["sol"]))
            res.probe(case["kind"])
            res.probe("history", t > 0)
    if n > 1 or case["steps"] > 1:
        res.key = res.digest
    return res
