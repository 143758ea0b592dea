"""S01: the unique-sample state pools all ranks' draws into one exact weighted set.

Workload: a unique-sample state on 1-4 ranks driven through a seeded history of
accesses, resets, parameter and sample-number changes.  Oracle: the batches each rank
drew (recorded at the public sample() of the netket base class) replayed through a
sequential counter.
"""
from __future__ import annotations

import numpy as np

from . import common as C
from simlib.runner import Result

PROPERTY = "S01"
RULE = ("a run counts as nontrivial if its pooled draws contain a duplicate and it is keyed by "
        "(ranks, drawn batches, history); distinct = distinct keys")
REAL = ["MCStateUniqueSamples", "netket MCState and samplers", "GPSKet qGPS / ARqGPS models, "
        "ARDirectSampler", "mpi4jax Python layer, netket.utils.mpi"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (32, 8, 45), "thorough": (800, 14, 1500)}


def gen_block(rng, b):
    kind = rng.choice(["metropolis", "metropolis", "ar"])
    return {"n": [1, 2, 3, 4, 2, 3][b % 6], "L": rng.choice([4, 5, 6]),
            "sz": rng.random() < 0.5,
            # the direct sampler has one chain per rank
            "chains": 1 if kind == "ar" else rng.choice([1, 2, 3]),
            "kind": kind,
            "dtype": rng.choice(["complex", "real"]), "b": b}


def gen_case(blk, rng, i):
    n, ch = blk["n"], blk["chains"]
    L = blk["L"] + (blk["L"] % 2 if blk["sz"] else 0)
    dim = {4: 6, 6: 20}[L] if blk["sz"] else 2 ** L
    unit = n * ch
    kmax = max(1, int(0.6 * dim) // unit)
    ns = unit * rng.randint(1, max(1, min(kmax, 4)))
    if ns > 0.75 * dim:
        limit = rng.choice([1, 2, 3, 4])
    else:
        limit = rng.choice([None, None, 1, 2, 3, 6])
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append(rng.choice(["access", "again", "reset", "params", "nsamples", "reset", "params"]))
    bs = rng.choice([None, None, unit, unit * 2, unit * 3])
    scale = rng.choice([0.05, 0.2]) if limit is None else rng.choice([0.05, 0.3, 1.0])
    if i == 4:        # many draws of few configurations
        ns, limit, bs = unit * (dim // unit + 1), rng.choice([1, 2]), unit * (3000 // unit)
        ops = ops[:1]
    return {**blk, **C.sched_fields(rng), "L": L, "ns": ns, "limit": limit, "batch": bs,
            "scale": scale, "seed": rng.randrange(10**6), "ops": ops, "dim": dim}


def shrink(case):
    for j in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:j] + case["ops"][j + 1:]}
    unit = case["n"] * case["chains"]
    if case["ns"] > unit:
        yield {**case, "ns": case["ns"] - unit}
    if case["n"] > 2:
        k = case["ns"] // unit
        yield {**case, "n": case["n"] - 1, "ns": k * (case["n"] - 1) * case["chains"]}
    if case["batch"]:
        yield {**case, "batch": None}


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    draws = [[] for _ in range(n)]   # per rank: recorded batches since the last marker

    def prog(r):
        import netket as nk
        import GPSKet
        import jax.numpy as jnp
        from GPSKet.vqs.mc.mc_state.state_unique_samples import MCStateUniqueSamples

        class Recorded(MCStateUniqueSamples):
            def sample(self, *a, **k):
                s = super().sample(*a, **k)
                draws[r].append(np.array(s))
                return s

        hi, g, ha = C.spin_system(case["L"], case["sz"])
        if case["kind"] == "ar":
            ma = GPSKet.models.ARqGPS(
                hi, 2, dtype=jnp.complex128 if case["dtype"] == "complex" else jnp.float64)
            sa = GPSKet.sampler.ARDirectSampler(hi)
        else:
            ma = C.qgps(hi, 2, case["dtype"])
            mk = nk.sampler.MetropolisExchange if case["sz"] else nk.sampler.MetropolisLocal
            kw = {"graph": g} if case["sz"] else {}
            sa = mk(hi, n_chains_per_rank=case["chains"], **kw)
        vs = Recorded(sa, ma, n_samples=case["ns"], n_discard_per_chain=case["seed"] % 3,
                      seed=case["seed"], sampler_seed=case["seed"] + 1,
                      max_sampling_steps=case["limit"], batch_size=case["batch"])
        base = vs.parameters
        vs.parameters = C.scaled(base, case["scale"], case["seed"])
        obs = []

        def access(tag, fresh):
            draws[r].clear()
            x, c = vs.samples_with_counts
            obs.append({"tag": tag, "x": np.array(x), "c": np.array(c), "fresh": fresh,
                        "ns": int(vs.n_samples), "draws": list(draws[r]),
                        "xs": np.array(vs.samples)})

        access("first", True)
        for j, op in enumerate(["again"] + case["ops"]):
            if op in ("access", "again"):
                access(op, False)
            elif op == "reset":
                vs.reset()
                access(op, True)
            elif op == "params":
                vs.parameters = C.scaled(base, case["scale"], case["seed"] + 17 * (j + 1))
                access(op, True)
            elif op == "nsamples":
                unit = n * case["chains"]
                new = unit * (1 + (vs.n_samples // unit) % 2)
                if new <= 0.75 * case["dim"] or case["limit"] is not None:
                    vs.n_samples = new
                    access(op, True)
        return obs

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    obs = C.values(out)
    prev = None
    dup = False
    for j in range(len(obs[0])):
        o = [obs[r][j] for r in range(n)]
        tag = f"access {j} ({o[0]['tag']})"
        ns = o[0]["ns"]
        X = np.concatenate([q["x"].reshape(-1, q["x"].shape[-1]) for q in o])
        Wt = np.concatenate([q["c"].reshape(-1) for q in o])
        for q in o:
            if not np.array_equal(q["xs"], q["x"]):
                res.bad("samples-property", f"{tag}: samples differs from samples_with_counts[0]")
        if X.shape[0] != ns or Wt.shape[0] != ns:
            res.bad("row-count", f"{tag}: {X.shape[0]} rows for {ns} requested")
            return res
        if not o[0]["fresh"]:
            if any(q["draws"] for q in o):
                res.bad("redraw", f"{tag}: repeated access draws again")
            if prev is not None and not (np.array_equal(prev[0], X) and np.array_equal(prev[1], Wt)):
                res.bad("unstable", f"{tag}: repeated access returns a different set")
            continue
        if not all(q["draws"] for q in o):
            res.bad("stale", f"{tag}: no fresh draws although the set had to be redrawn")
            return res
        rounds = {len(q["draws"]) for q in o}
        if len(rounds) != 1:
            res.bad("rounds", f"{tag}: ranks drew different numbers of rounds {rounds}")
            return res
        rounds = rounds.pop()
        if case["limit"] is not None and rounds > max(1, case["limit"]):
            res.bad("rounds", f"{tag}: {rounds} rounds with a limit of {case['limit']}")
        counts, pooled = {}, 0
        for t in range(rounds):
            for q in o:
                for row in q["draws"][t].reshape(-1, X.shape[1]):
                    if len(counts) >= ns:
                        break
                    k = tuple(row.tolist())
                    counts[k] = counts.get(k, 0) + 1
                    pooled += 1
        if len(counts) < ns and (case["limit"] is None or rounds < case["limit"]):
            res.bad("stopped-early", f"{tag}: {len(counts)} of {ns} distinct after {rounds} rounds "
                                     f"(limit {case['limit']})")
        tot = sum(counts.values())
        dup |= tot > len(counts)
        res.probe("rounds>1", rounds > 1)
        res.probe("limit reached", len(counts) < ns)
        res.probe("full", len(counts) == ns)
        got = {}
        for row, c in zip(X, Wt):
            if c == 0:
                continue
            k = tuple(row.tolist())
            if k in got:
                res.bad("duplicate", f"{tag}: configuration {k} held twice with weights {got[k]}, {c}")
            got[k] = float(c)
        miss = [k for k in counts if k not in got]
        extra = [k for k in got if k not in counts]
        if miss or extra:
            res.bad("wrong-set", f"{tag}: missing {miss[:3]}, not drawn {extra[:3]} "
                                 f"({len(got)} held, {len(counts)} drawn)")
        else:
            for k, c in counts.items():
                if abs(got[k] - c / tot) > 1e-9:
                    res.bad("wrong-weight", f"{tag}: {k}: weight {got[k]} for {c} of {tot} draws")
                    break
        if abs(float(np.sum(Wt)) - 1) > 1e-9:
            res.bad("weight-sum", f"{tag}: weights sum to {np.sum(Wt)}")
        prev = (X, Wt)
        res.note(C.h(X, Wt))
    if dup:
        res.key = f"{n}|{res.digest}|{case['ops']}"
    res.samples = {"accesses": len(obs[0]), "rows": int(ns)}
    return res
