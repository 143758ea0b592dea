"""D04: the state-fitting driver's sharding, mini-batches, loss and gradient.

The mini-batches are observed by a callback inside the model (what the network is evaluated
on), not by looking into the driver.
"""
from __future__ import annotations

import numpy as np

from . import common as C
from simlib.runner import Result

PROPERTY = "D04"
RULE = "nontrivial: more than one rank or a batch smaller than the shard; keyed by the batches drawn"
REAL = ["ARStateFitting / AbstractStateFittingDriver", "netket MCState, driver, optimiser", "GPSKet ARqGPS"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (24, 6, 45), "thorough": (600, 12, 1500)}


def gen_block(rng, b):
    n = [2, 3, 1, 4, 2, 3][b % 6]
    size = rng.randint(max(5, n + 1), 14)
    small = size // n
    full = rng.random() < 0.35
    return {"n": n, "size": size, "full": full,
            "batch": small if full else rng.randint(1, small),
            "dtype": rng.choice(["complex", "real"])}


def gen_case(blk, rng, i):
    return {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6), "steps": rng.randint(2, 4),
            "lr": rng.choice([0.05, 0.2]), "scale": rng.choice([0.1, 0.4]),
            "reset": rng.random() < 0.5}


def shrink(case):
    if case["steps"] > 1:
        yield {**case, "steps": case["steps"] - 1}
    if case["reset"]:
        yield {**case, "reset": False}


SEEN = [[] for _ in range(8)]


def loss_grad():
    def build():
        import jax
        import jax.numpy as jnp

        def loss(apply, p, ms, x, y):
            z = jnp.exp(apply({"params": p, **ms}, x)) - y
            return jnp.mean(z.real ** 2 + z.imag ** 2)
        return jax.jit(jax.value_and_grad(loss, argnums=1), static_argnums=0)
    return C.memo("D04-loss", build)


def run_case(case):
    res = Result()
    n, L = case["n"], 4
    w = C.get_world(n)
    keep = {}
    seen = SEEN
    for r in range(n):
        seen[r].clear()
    cplx = case["dtype"] == "complex"

    def prog(r):
        import netket as nk
        import GPSKet
        import flax.linen as nn
        import jax
        import jax.numpy as jnp
        from GPSKet.driver import ARStateFitting

        hi, g, ha = C.spin_system(L, False)
        inner = GPSKet.models.ARqGPS(hi, 2, dtype=jnp.complex128 if cplx else jnp.float64)

        def build():
            def note(x):
                seen[r].append(np.array(x))

            class Watched(nn.Module):
                net: nn.Module

                def conditionals(self, x):
                    return self.net.conditionals(x)

                def __call__(self, x):
                    jax.debug.callback(note, x)
                    return self.net(x)
            return Watched

        Watched = C.memo(("D04", n, r), build)

        vs = nk.vqs.MCState(nk.sampler.MetropolisLocal(hi, n_chains_per_rank=1), Watched(inner),
                            n_samples=n, n_discard_per_chain=0, seed=case["seed"],
                            sampler_seed=case["seed"] + 1)
        vs.parameters = C.scaled(vs.parameters, case["scale"], case["seed"])
        rs = np.random.RandomState(case["seed"])
        states = C.all_states(hi).astype(float)
        conf = states[rs.permutation(len(states))[:case["size"]]]
        amp = rs.rand(case["size"]) + 0.1
        if cplx:
            amp = amp * np.exp(2j * np.pi * rs.rand(case["size"]))
        amp = amp / np.linalg.norm(amp)
        # with full=True every process uses its whole shard in each step
        bs = case["batch"]
        if case["full"]:
            bs = len(np.array_split(np.arange(case["size"]), n)[r])
        d = ARStateFitting((conf, amp), ha, nk.optimizer.Sgd(case["lr"]), variational_state=vs,
                           mini_batch_size=bs, seed=case["seed"])
        if r == 0:
            keep.update(conf=conf, amp=amp, apply=vs._apply_fun, ms=dict(vs.model_state))
        p_init = vs.parameters

        def steps(k):
            out = []
            for _ in range(k):
                seen[r].clear()
                p0 = C.tree_np(vs.parameters)
                d.advance(1)
                jax.effects_barrier()
                out.append({"b": [a.reshape(-1, L) for a in seen[r]], "p0": p0,
                            "p1": C.tree_np(vs.parameters), "loss": float(np.real(d.loss))})
            return out

        first = steps(case["steps"])
        again = None
        if case["reset"]:
            d.reset()
            vs.parameters = p_init
            again = steps(case["steps"])
        return first, again, bs

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    vals = C.values(out)
    conf = [tuple(x.tolist()) for x in keep["conf"]]
    index = {t: i for i, t in enumerate(conf)}
    owner = {}
    runs = [("first", [v[0] for v in vals])]
    if case["reset"]:
        runs.append(("after reset", [v[1] for v in vals]))
    for name, run in runs:
        for t in range(case["steps"]):
            o = [run[r][t] for r in range(n)]
            ids = []
            for r in range(n):
                bs = {tuple(map(tuple, b.tolist())) for b in o[r]["b"]}
                bs = {b for b in bs if len(b) == vals[r][2]}
                if len(bs) != 1:
                    if not bs:
                        res.bad("batch", f"{name} step {t} rank {r}: no evaluation on a batch of "
                                         f"{vals[r][2]} configurations")
                    else:
                        res.bad("batch", f"{name} step {t} rank {r}: {len(bs)} different batches in a step")
                    return res
                rows = list(next(iter(bs)))
                if any(x not in index for x in rows):
                    res.bad("foreign", f"{name} step {t} rank {r}: configuration not in the data set")
                    return res
                k = [index[x] for x in rows]
                if len(set(k)) != len(k):
                    res.bad("repeated", f"{name} step {t} rank {r}: a pair appears twice in a mini-batch")
                for i in k:
                    if owner.setdefault(i, r) != r:
                        res.bad("owner", f"{name} step {t}: pair {i} used by ranks {owner[i]} and {r}")
                ids.append(k)
            if case["full"] and sorted(sum(ids, [])) != list(range(case["size"])):
                res.bad("partition", f"{name} step {t}: shards do not cover the data set exactly once: "
                                     f"{sorted(sum(ids, []))}")
            if res.violation:
                return res
            C.same_on_ranks([C.ravel(q["p1"]) for q in o], f"{name} step {t} parameters", res)
            C.same_on_ranks([q["loss"] for q in o], f"{name} step {t} loss", res, 1e-12)
            if len({len(k) for k in ids}) == 1:
                with w.as_rank(0):
                    import jax
                    import jax.numpy as jnp
                    x = jnp.asarray(np.concatenate([keep["conf"][k] for k in ids]))
                    y = jnp.asarray(np.concatenate([keep["amp"][k] for k in ids]))

                    p0 = jax.tree_util.tree_map(jnp.asarray, o[0]["p0"])
                    lv, gr = loss_grad()(keep["apply"], p0, keep["ms"], x, y)
                lv, g = float(lv), np.conj(C.ravel(gr))
                if abs(o[0]["loss"] - lv) > 1e-9 * max(1e-3, lv):
                    res.bad("loss", f"{name} step {t}: loss {o[0]['loss']} instead of {lv}")
                got = (C.ravel(o[0]["p0"]) - C.ravel(o[0]["p1"])) / case["lr"]
                e = np.max(np.abs(got - g)) / max(1e-6, np.max(np.abs(g)))
                if not e <= 1e-6:
                    res.bad("gradient", f"{name} step {t} {n} ranks: step deviates from the gradient of "
                                        f"the loss by {e:.3g}")
                res.probe("gradient checked")
            res.note((ids, C.h(C.ravel(o[0]["p1"]))))
            if name == "after reset":
                for r in range(n):
                    a = {tuple(map(tuple, b.tolist())) for b in vals[r][0][t]["b"]}
                    b = {tuple(map(tuple, b.tolist())) for b in vals[r][1][t]["b"]}
                    if a != b:
                        res.bad("reset", f"rank {r}: mini-batch of step {t} differs after a reset")
                res.probe("reset compared")
    if n > 1 or case["batch"] < case["size"]:
        res.key = res.digest
    return res
