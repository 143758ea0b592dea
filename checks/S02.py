"""S02: estimates of the unique-sample and stratified states are the pooled weighted averages.

Workload: 1-4 ranks; energy, gradient and quantum geometric tensor are requested in a seeded
order, with and without chunks, between resets and parameter changes.  Oracle: a numpy
evaluation over the rows and weights of all ranks, with local energies from the dense
Hamiltonian matrix and log-derivatives by automatic differentiation of single amplitudes.
"""
from __future__ import annotations

import numpy as np

from . import common as C
from . import ref
from simlib.runner import Result

PROPERTY = "S02"
RULE = ("nontrivial: the pooled weights are not all equal; keyed by ranks, rows, weights and "
        "requested quantities")
REAL = ["MCStateUniqueSamples / MCStateStratifiedSampling and their estimators",
        "QGTJacobianDenseUniqueSamples", "netket MCState, samplers, kernels", "GPSKet qGPS"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (32, 5, 45), "thorough": (800, 10, 1500)}
TOL = 1e-7


def gen_block(rng, b):
    # 1, 2 or 3 chunks per rank
    return {"n": [2, 3, 1, 4, 2, 3][b % 6], "sz": rng.random() < 0.5, "chains": rng.choice([1, 2]),
            "dtype": rng.choice(["complex", "real"]), "per": rng.choice([1, 2, 3]),
            "chunk": rng.choice([None, 1, 2]), "strat": rng.random() < 0.35,
            "qgt": rng.choice(["dense", "none", "holo", "complex"])}


def gen_case(blk, rng, i):
    n, ch = blk["n"], blk["chains"]
    ns = n * ch * blk["per"]
    ndet = rng.randint(1, 6) if not blk["sz"] else rng.randint(1, 6)
    return {**blk, **C.sched_fields(rng), "ns": ns, "ndet": max(ndet, n),
            "limit": rng.choice([1, 2, 3]), "scale": rng.choice([0.1, 0.3, 0.8]),
            "seed": rng.randrange(10**6),
            "ops": [rng.choice(["grad", "expect", "qgt", "reset", "params", "grad"])
                    for _ in range(rng.randint(1, 4))]}


def shrink(case):
    for j in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:j] + case["ops"][j + 1:]}


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    L = 6 if case["sz"] else 4
    keep = {}

    def prog(r):
        import netket as nk
        import jax.numpy as jnp
        from GPSKet.vqs.mc.mc_state.state_unique_samples import MCStateUniqueSamples
        from GPSKet.vqs.mc.mc_state.state_stratified_sampling import MCStateStratifiedSampling
        from GPSKet.optimizer.qgt import QGTJacobianDenseUniqueSamples

        hi, g, ha = C.spin_system(L, case["sz"])
        ma = C.qgps(hi, 2, case["dtype"])
        mk = nk.sampler.MetropolisExchange if case["sz"] else nk.sampler.MetropolisLocal
        kw = {"graph": g} if case["sz"] else {}
        sa = mk(hi, n_chains_per_rank=case["chains"], **kw)
        chunk = case["chunk"]
        nrank = case["ns"] // n
        if case["strat"]:
            chunk = None   # rows per rank need not be a multiple of a chunk
        elif chunk is not None and nrank % chunk:
            chunk = nrank
        args = dict(n_samples=case["ns"], n_discard_per_chain=1, seed=case["seed"],
                    sampler_seed=case["seed"] + 1, chunk_size=chunk)
        states = C.all_states(hi)
        if case["strat"]:
            rs = np.random.RandomState(case["seed"])
            det = states[rs.permutation(len(states))[:case["ndet"]]].astype(float)
            vs = MCStateStratifiedSampling(jnp.asarray(det), len(states), sa, ma,
                                           rand_norm=bool(case["seed"] % 2), **args)
        else:
            vs = MCStateUniqueSamples(sa, ma, max_sampling_steps=case["limit"],
                                      batch_size=2 * case["ns"] if case["seed"] % 2 else None,
                                      **args)
        if r == 0:
            keep.update(hi=hi, ha=ha, apply=vs._apply_fun)
        base = vs.parameters
        vs.parameters = C.scaled(base, case["scale"], case["seed"])
        obs = []

        def rec(tag, val):
            x, c = vs.samples_with_counts
            obs.append({"tag": tag, "x": np.array(x), "c": np.array(c),
                        "p": C.tree_np(vs.parameters), "val": val})

        for j, op in enumerate(["grad", "qgt"] + case["ops"]):
            if op == "grad":
                e, gr = vs.expect_and_grad(ha)
                rec(op, (complex(e.mean), float(e.variance), C.ravel(gr)))
            elif op == "expect":
                e = vs.expect(ha)
                rec(op, (complex(e.mean), float(e.variance)))
            elif op == "qgt":
                kw = {}
                if case["qgt"] == "holo" and case["dtype"] == "complex":
                    kw = {"holomorphic": True}
                elif case["qgt"] == "complex" or case["dtype"] == "complex":
                    kw = {"mode": "complex"}
                Q = QGTJacobianDenseUniqueSamples(vs, diag_shift=0.01, **kw)
                v = ref.seeded_like(vs.parameters, case["seed"] + j)
                rec(op, (np.array(Q.to_dense()), C.ravel(Q @ v), kw, C.ravel(v)))
            elif op == "reset":
                vs.reset()
            elif op == "params":
                vs.parameters = C.scaled(base, case["scale"], case["seed"] + 13 * (j + 1))
        return obs

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    obs = C.values(out)
    with w.as_rank(0):
        R = ref.Ref(keep["hi"], keep["ha"], keep["apply"])
        nontrivial = False
        for j in range(len(obs[0])):
            o = [obs[r][j] for r in range(n)]
            tag = f"{j}:{o[0]['tag']}"
            X = np.concatenate([q["x"].reshape(-1, L) for q in o])
            Wt = np.concatenate([q["c"].reshape(-1) for q in o])
            nontrivial |= np.ptp(Wt[Wt > 0]) > 1e-9
            p = o[0]["p"]
            for k in range(2 if o[0]["tag"] != "grad" else 3):
                C.same_on_ranks([q["val"][k] for q in o], f"{tag} value {k}", res, 1e-10)
            val = o[0]["val"]
            if o[0]["tag"] in ("grad", "expect"):
                m, v, g = R.energy(p, X, Wt)
                if C.differs(val[0], m, TOL):
                    res.bad("energy-mean", f"{tag}: {val[0]} instead of {m}")
                if abs(val[1] - v) > TOL * max(1, abs(v)):
                    res.bad("energy-variance", f"{tag}: {val[1]} instead of {v}")
                if o[0]["tag"] == "grad" and np.max(np.abs(val[2] - g)) > TOL * max(1, np.max(np.abs(g))):
                    res.bad("gradient", f"{tag}: deviates by {np.max(np.abs(val[2] - g)):.3g} "
                                        f"(scale {np.max(np.abs(g)):.3g})")
            else:
                kw = val[2]
                mode = "holomorphic" if kw.get("holomorphic") else kw.get("mode", "real")
                S = R.qgt(p, X, Wt, mode) + 0.01 * np.eye(val[0].shape[0])
                if C.differs(val[0], S, TOL):
                    res.bad("qgt", f"{tag} mode {mode}: dense matrix deviates by {C.err(val[0], S):.3g}")
                Sv = ref.apply_real(S, val[3], mode, p)
                if C.differs(val[1], Sv, 1e-6):
                    res.bad("qgt-matvec", f"{tag} mode {mode}: product deviates by {C.err(val[1], Sv):.3g}")
            res.probe(o[0]["tag"])
            res.note(C.h(X, Wt))
    res.probe("stratified", case["strat"])
    if nontrivial:
        res.key = res.digest
    return res
