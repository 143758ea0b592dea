"""L03: imaginary-time helpers: exact targets, state untouched, failure in the middle.

The operator's connected elements are a fault point: an evaluation may be interrupted (all
ranks) or fail (one rank) at any of its chunks.  Afterwards the state has to be as before and
later evaluations have to be right.
"""
from __future__ import annotations

import numpy as np

from . import common as C, fermi as F
from simlib import core
from simlib.runner import Result

PROPERTY = "L03"
RULE = "nontrivial: at least two evaluations or a fault; keyed by configurations, fault point and results"
REAL = ["ImagTimeStep, get_imag_time_step_vstate", "netket MCState.local_estimators", "GPSKet models and "
        "on-the-fly Hamiltonians"]
STUB = ["MPI transport (simulated collectives)", "operator evaluations carry injected failures and interrupts"]
ASSUMPTIONS = ["real-valued states: tau is chosen so that 1 - tau * E_loc > 0 (a real logarithm has no sign)"]
BUDGET = {"quick": (24, 8, 45), "thorough": (600, 12, 1500)}


def gen_block(rng, b):
    kind = ["spin", "vstate", "spin", "fermi"][b % 4]
    n = [1, 2, 1, 3][(b // 4) % 4] if kind == "spin" else [1, 1, 2][(b // 4) % 3]
    blk = {"kind": kind, "n": n, "dtype": rng.choice(["real", "complex"]),
           "chunk": rng.choice([None, 1, 2, 3]), "rows": rng.randint(1, 6)}
    if kind == "spin":
        blk["L"] = rng.choice([3, 4])
        blk["sz"] = blk["L"] == 4 and rng.random() < 0.5
    else:
        blk["op"] = rng.choice(["hubbard-otf", "abinitio-otf"])
        blk["model"] = rng.choice(list(F.MODELS))
        blk["fast"] = rng.random() < 0.5 and blk["model"] != "jastrow-slater"
        blk["L"], blk["ne"] = 3, rng.choice([[1, 1], [2, 1], [2, 2]])
        blk["nest"] = rng.choice([1, 1, 2])
        if kind == "vstate":
            blk["chunk"] = rng.choice([None, None, 1])
    return blk


def gen_case(blk, rng, i):
    n = blk["n"]
    case = {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6), "scale": rng.choice([0.1, 0.4]),
            "tau": rng.choice([0.01, 0.05, 0.2]), "evals": rng.randint(1, 3),
            "sampled": rng.random() < 0.8, "two": rng.random() < 0.4,
            "same": rng.random() < 0.5, "change": [rng.choice([None, "params", "tau"]) for _ in range(2)]}
    if blk["kind"] == "spin" and rng.random() < 0.6:
        if rng.random() < 0.5:
            case["interrupt"] = rng.randint(0, 3)
        else:
            case["raise"] = [rng.randrange(n), rng.randint(0, 3)]
    return case


def shrink(case):
    if case["evals"] > 1:
        yield {**case, "evals": case["evals"] - 1}
    for k in ("interrupt", "raise"):
        if k in case:
            yield {a: b for a, b in case.items() if a != k}
    if case["same"]:
        yield {**case, "same": False}
    if any(case["change"]):
        yield {**case, "change": [None, None]}
    if case.get("two"):
        yield {**case, "two": False}


def snapshot(vs):
    import jax
    s = vs._samples
    return {"samples": None if s is None else np.array(s),
            "params": C.ravel(vs.parameters),
            "mstate": [np.array(x) for x in jax.tree_util.tree_leaves(vs.model_state)],
            "chunk": vs.chunk_size,
            "sampler": [np.array(jax.random.key_data(x) if jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key)
                                 else x) for x in jax.tree_util.tree_leaves(vs.sampler_state)]}


def same_snapshot(a, b):
    for k in a:
        x, y = a[k], b[k]
        if k in ("mstate", "sampler"):
            if len(x) != len(y) or any(not np.array_equal(p, q) for p, q in zip(x, y)):
                return k
        elif (x is None) != (y is None) or (x is not None and not np.array_equal(x, y)):
            return k
    return None


class Boom(Exception):
    pass


def build(case, r):
    import netket as nk
    import GPSKet
    from GPSKet.operator import hamiltonian as H
    L = case["L"]
    if case["kind"] == "spin":
        hi, g, ha = C.spin_system(L, case["sz"])
        ma = C.qgps(hi, 2, case["dtype"])
        sa = nk.sampler.MetropolisLocal(hi, n_chains_per_rank=1) if not case["sz"] else \
            nk.sampler.MetropolisExchange(hi, graph=g, n_chains_per_rank=1)
        hd, st = np.array(ha.to_dense()), [tuple(s) for s in np.array(hi.all_states()).astype(float).tolist()]
    else:
        hi = GPSKet.hilbert.FermionicDiscreteHilbert(L, n_elec=tuple(case["ne"]))
        if case["op"] == "hubbard-otf":
            edges, t = [(0, 1), (1, 2), (2, 0)], [1.0, 0.7, 1.3]
            ha = H.FermiHubbardOnTheFly(hi, edges, U=2.0, t=t)
            st, hd = F.hubbard_matrix(L, tuple(case["ne"]), edges, np.array(t), 2.0)
        else:
            h, eri = F.integrals(L, case["seed"] % 7, 1.0, 0)
            ha = H.AbInitioHamiltonianOnTheFly(hi, h.copy(), eri.copy())
            st, hd = F.ab_initio_matrix(L, tuple(case["ne"]), h, eri)
        ma = F.model(case["model"], hi, case["fast"])
        mk = GPSKet.sampler.MetropolisFastHopping if case["fast"] else GPSKet.sampler.MetropolisHopping
        sa = mk(hi, n_chains_per_rank=1)
        st = [tuple(float(v) for v in s) for s in st]
    vs = nk.vqs.MCState(sa, ma, n_samples=2 * case["n"], n_discard_per_chain=0, seed=case["seed"],
                        sampler_seed=case["seed"] + 1, chunk_size=case["chunk"])
    if case["kind"] == "spin":
        vs.parameters = C.scaled(vs.parameters, case["scale"], case["seed"])
    else:
        vs.parameters = F.reseed(vs.parameters, case["seed"], case["scale"])
    return hi, ha, vs, st, np.asarray(hd)


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "GPSKet.supervised.imag_time_step"), key="its")
    L = case["L"]
    hit = [False] * n

    def prog(r):
        import jax.numpy as jnp
        from GPSKet.supervised.imag_time_step import ImagTimeStep, get_imag_time_step_vstate
        hi, ha, vs, states, Hd = build(case, r)
        rs = np.random.RandomState(case["seed"] + 11 * r)
        x_all = np.array(states).astype(float if case["kind"] == "spin" else np.uint8)
        if case["sampled"]:
            vs.samples
        full = np.exp(np.array(vs.log_value(jnp.asarray(x_all))).astype(complex))
        eloc = (Hd @ full) / full
        tau = case["tau"]
        low = np.max(np.real(eloc))
        if tau * low > 0.8:
            tau = 0.8 / low
        before = snapshot(vs)
        log = []

        if case["kind"] == "vstate":
            cur, psi = vs, full
            taus = []
            for k in range(case["nest"]):
                if k:
                    tau = 0.6 * tau
                    e = (Hd @ psi) / psi
                    if np.max(np.real(tau * e)) > 0.8:
                        tau = 0.8 / np.max(np.real(e))
                snap = snapshot(cur)
                new = get_imag_time_step_vstate(tau, ha, cur)
                psi = psi - tau * (Hd @ psi)
                taus.append(tau)
                for _ in range(case["evals"]):
                    idx = rs.randint(0, len(states), size=case["rows"])
                    got = np.exp(np.array(new.log_value(jnp.asarray(x_all[idx]))).astype(complex))
                    log.append((idx.tolist(), got, psi[idx], f"time-evolved state, level {k + 1}"))
                bad = same_snapshot(snap, snapshot(cur))
                if bad:
                    return {"bad": f"the original state's {bad} changed when its time-evolved state was used"}
                # the two states are independent of each other
                new.parameters = new.parameters
                if case["two"] and not case["fast"] and k + 1 == case["nest"]:
                    new.reset()
                    new.sample()
                    bad = same_snapshot(snap, snapshot(cur))
                    if bad:
                        return {"bad": f"sampling the time-evolved state changed the original's {bad}"}
                cur = new
            return {"log": log}

        calls = [0]
        if case["kind"] == "spin":
            real = ha.get_conn_padded

            def flaky(x):
                sim = core.CURRENT
                sim.yield_point("operator evaluation")
                calls[0] += 1
                if case.get("raise") and case["raise"][0] == r and calls[0] == case["raise"][1] + 1:
                    sim.fire("operator evaluation fails")
                    raise Boom("simulated failure of an operator evaluation")
                if case.get("interrupt") == calls[0] - 1:
                    sim.fire("interrupt during an operator evaluation")
                    raise core.SimInterrupt("simulated interrupt")
                return real(x)
            ha.get_conn_padded = flaky
        its = ImagTimeStep(vs, ha)
        other = ImagTimeStep(vs, ha) if case["two"] else its
        k = 0
        tries = 0
        arr = None
        while k < case["evals"]:
            tries += 1
            if k and case["change"][k - 1] and not fresh:
                # the same configurations may be evaluated again for other parameters or another step
                fresh = True
                if case["change"][k - 1] == "params":
                    if case["kind"] == "spin":
                        vs.parameters = C.scaled(vs.parameters, case["scale"], case["seed"] + k)
                    else:
                        vs.parameters = F.reseed(vs.parameters, case["seed"] + k, case["scale"])
                    if case["sampled"]:
                        vs.samples
                    full = np.exp(np.array(vs.log_value(jnp.asarray(x_all))).astype(complex))
                    eloc = (Hd @ full) / full
                else:
                    tau = 0.5 * tau
                low = np.max(np.real(eloc))
                if tau * low > 0.8:
                    tau = 0.8 / low
                before = snapshot(vs)
            if arr is None or not case["same"]:
                idx = rs.randint(0, len(states), size=case["rows"])
                x = x_all[idx]
                shape = (case["rows"], L) if rs.randint(2) or case["rows"] % 2 else (2, case["rows"] // 2, L)
                arr = jnp.asarray(x.reshape(shape))
            try:
                got = np.array((its if k % 2 else other).log_imag_time_step(tau, arr))
            except (Boom, core.SimInterrupt):
                hit[r] = True
                bad = same_snapshot(before, snapshot(vs))
                if bad:
                    return {"bad": f"after a failed evaluation the state's {bad} differ from before"}
                if tries > 6:
                    break
                continue
            k += 1
            fresh = False
            want = full - tau * (Hd @ full)
            log.append((idx.tolist(), np.exp(got.astype(complex)), want[idx], f"step {k}"))
            bad = same_snapshot(before, snapshot(vs))
            if bad:
                return {"bad": f"after a time step the state's {bad} differ from before"}
        return {"log": log}

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    done = [o[1] for o in out if o[0] == "ok"]
    for r, v in enumerate(done):
        if v.get("bad"):
            res.bad("state-changed", f"rank {r}: {v['bad']}")
            return res
        for idx, got, want, what in v["log"]:
            if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-8 * (np.abs(want) + 1e-6 + 1e-3 * np.max(np.abs(want)))):
                res.bad("target", f"rank {r} {case['kind']} {what}: (1 - tau H) psi at configurations {idx}: "
                                  f"{got[:4]} instead of {want[:4]}")
                return res
            res.note((idx, C.h(got)))
            res.probe("targets checked " + case["kind"])
    if any(hit):
        res.probe("recovered after a failed evaluation")
    if any(hit) or case["evals"] > 1:
        res.key = res.digest
    return res
