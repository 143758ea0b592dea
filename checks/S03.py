"""S03: the stratified state's rows and weights.

Workload: 1-4 ranks, deterministic sets of seeded size (not a multiple of the ranks),
histories of accesses, resets and parameter changes.  Oracle: set membership and the
amplitudes of a single process.
"""
from __future__ import annotations

import numpy as np

from . import common as C
from simlib.runner import Result

PROPERTY = "S03"
RULE = "nontrivial: at least one complement row repeated or one rank with fewer rows; keyed by rows and weights"
REAL = ["MCStateStratifiedSampling", "netket MCState and Metropolis samplers", "GPSKet qGPS / ARqGPS"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (24, 6, 45), "thorough": (600, 12, 1500)}


def gen_block(rng, b):
    blk = {"n": [2, 3, 4, 1, 3, 2][b % 6], "sz": rng.random() < 0.5, "chains": rng.choice([1, 2, 3]),
           "dtype": rng.choice(["complex", "real"]), "per": rng.choice([1, 2, 3]),
           "chunk": rng.random() < 0.3, "rand_norm": rng.random() < 0.6,
           "ar": rng.random() < 0.3, "disc": rng.choice([0, 1, 2]),
           "ndet": rng.randint(4, 9), "sweep": None}
    if b % 4 == 1:        # single moves can be followed
        blk.update(chains=1, per=rng.choice([5, 8]), sweep=1, ndet=rng.randint(6, 9))
    if b % 8 == 6:        # enough samples for their distribution
        blk.update(n=1 + b // 8 % 2, sz=False, ndet=rng.randint(3, 5), chains=40, per=25, sweep=6, disc=4,
                   chunk=False)
    return blk


def gen_case(blk, rng, i):
    ns = blk["n"] * blk["chains"] * blk["per"]
    big = blk["chains"] == 40
    return {**blk, **C.sched_fields(rng), "ns": ns,
            "nrand": (rng.randint(4, 7) if big else rng.choice([None, rng.randint(4, 7)])) if blk["rand_norm"] else None,
            "scale": rng.choice([0.2, 0.3] if big else [0.1, 0.3, 0.5]), "seed": rng.randrange(10**6),
            "ops": [rng.choice(["again", "reset", "params", "reset"]) for _ in range(1 if big else rng.randint(1, 3))]}


def shrink(case):
    for j in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:j] + case["ops"][j + 1:]}
    if case["nrand"]:
        yield {**case, "nrand": None}


def mean_of(p, m):
    """Sums of all multisets of m of the values p."""
    sums = np.array([0.0])
    first = np.array([0])
    for _ in range(m):
        out, idx = [], []
        for i in range(len(p)):
            take = first <= i
            out.append(sums[take] + p[i])
            idx.append(np.full(int(take.sum()), i))
        sums, first = np.concatenate(out), np.concatenate(idx)
    return sums


def moves(case, o, det, edges, L):
    """Consecutive samples of a chain with one move per sample."""
    if case["sweep"] != 1 or case["chains"] != 1:
        return None
    for r, q in enumerate(o):
        x = [t for t in q["x"].reshape(-1, L) if tuple(t.tolist()) not in det]
        for a, b in zip(x, x[1:]):
            d = tuple(np.nonzero(a != b)[0].tolist())
            if d and (d not in edges if case["sz"] else len(d) != 1):
                return "chain", f"rank {r}: {a.tolist()} is followed by {b.tolist()}, more than one move away"
    return None


def mixing(conf, prob, edges, sz, sweep):
    """Largest modulus, after one sample, of the other eigenvalues of the Metropolis chain on conf."""
    L = len(conf[0])
    pos = {t: i for i, t in enumerate(conf)}
    P = np.zeros((len(conf), len(conf)))
    for t, i in pos.items():
        nxt = []
        if sz:
            for a, b in edges:
                u = list(t)
                u[a], u[b] = u[b], u[a]
                nxt.append(tuple(u))
        else:
            for a in range(L):
                u = list(t)
                u[a] = -u[a]
                nxt.append(tuple(u))
        for u in nxt:
            if u in pos and u != t:
                P[i, pos[u]] += min(1.0, prob[pos[u]] / prob[i]) / len(nxt)
    P += np.diag(1 - P.sum(1))
    ev = np.sort(np.abs(np.linalg.eigvals(P)))[::-1]
    return float(ev[1]) ** sweep if len(ev) > 1 else 0.0


def distribution(case, rows, cr, det, prob, index, edges):
    """Only where the exact restricted chain forgets quickly enough for the bound to be safe."""
    if case["chains"] < 40:
        return None
    conf = [t for t in index if t not in det]
    p = np.array([prob[index[t]] for t in conf])
    lam = mixing(conf, p, sorted(edges), case["sz"], case["sweep"])
    eff = len(cr) * (1 - lam) / (1 + lam)
    if lam ** case["disc"] > 0.02 or eff < 350:
        return None
    f = {}
    for k in cr:
        f[rows[k]] = f.get(rows[k], 0) + 1 / len(cr)
    p = p / p.sum()
    tv = 0.5 * sum(abs(f.get(t, 0) - q) for t, q in zip(conf, p))
    # expected deviation of eff independent draws, with ample room
    lim = 0.5 * np.sum(np.sqrt(2 * p * (1 - p) / (np.pi * eff))) + 4 * 0.5 / np.sqrt(eff)
    if tv > lim:
        return "distribution", (f"complement samples deviate from the restricted probabilities by {tv:.3f} "
                                f"(total variation; at most {lim:.3f} expected)")
    return None


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    L = 6 if case["sz"] else 4
    keep = {}

    def prog(r):
        import netket as nk
        import GPSKet
        import jax.numpy as jnp
        from GPSKet.vqs.mc.mc_state.state_stratified_sampling import MCStateStratifiedSampling
        hi, g, ha = C.spin_system(L, case["sz"])
        if case["ar"]:
            ma = GPSKet.models.ARqGPS(
                hi, 2, dtype=jnp.complex128 if case["dtype"] == "complex" else jnp.float64)
        else:
            ma = C.qgps(hi, 2, case["dtype"])
        mk = nk.sampler.MetropolisExchange if case["sz"] else nk.sampler.MetropolisLocal
        kw = {"graph": g} if case["sz"] else {}
        if case["sweep"]:
            kw["sweep_size"] = case["sweep"]
        if r == 0:
            keep["edges"] = {tuple(sorted(e)) for e in g.edges()}
        sa = mk(hi, n_chains_per_rank=case["chains"], **kw)
        states = C.all_states(hi).astype(float)
        rs = np.random.RandomState(case["seed"])
        det = states[rs.permutation(len(states))[:case["ndet"]]]
        # every rank is given the same set
        vs = MCStateStratifiedSampling(
            jnp.asarray(det), len(states), sa, ma, rand_norm=case["rand_norm"],
            number_random_samples=case["nrand"], renormalize=not case["ar"],
            n_samples=case["ns"], n_discard_per_chain=case["disc"], seed=case["seed"],
            sampler_seed=case["seed"] + 1, chunk_size=case["ns"] // n if case["chunk"] else None)
        if r == 0:
            keep.update(det=det, states=states, apply=vs._apply_fun, ms=dict(vs.model_state))
        base = vs.parameters
        vs.parameters = C.scaled(base, case["scale"], case["seed"])
        obs = []

        def access(tag):
            x, c = vs.samples_with_counts
            obs.append({"tag": tag, "x": np.array(x), "c": np.array(c), "p": C.tree_np(vs.parameters)})

        access("first")
        for j, op in enumerate(case["ops"]):
            if op == "reset":
                vs.reset()
            elif op == "params":
                vs.parameters = C.scaled(base, case["scale"], case["seed"] + 13 * (j + 1))
            access(op)
        return obs

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    obs = C.values(out)
    det = {tuple(x.tolist()) for x in keep["det"]}
    states = keep["states"]
    index = {tuple(x.tolist()): i for i, x in enumerate(states)}
    prev = None
    for j in range(len(obs[0])):
        o = [obs[r][j] for r in range(n)]
        tag = f"access {j} ({o[0]['tag']})"
        X = np.concatenate([q["x"].reshape(-1, L) for q in o])
        Wt = np.concatenate([q["c"].reshape(-1) for q in o])
        rows = [tuple(x.tolist()) for x in X]
        if len(Wt) != len(rows):
            res.bad("shape", f"{tag}: {len(rows)} rows, {len(Wt)} weights")
            return res
        if any(t not in index for t in rows):
            res.bad("invalid-row", f"{tag}: a row is not in the Hilbert space")
            return res
        if o[0]["tag"] == "again":
            if not (np.array_equal(prev[0], X) and np.array_equal(prev[1], Wt)):
                res.bad("unstable", f"{tag}: repeated access returns a different set")
            continue
        with w.as_rank(0):
            import jax
            import jax.numpy as jnp
            lp = np.asarray(keep["apply"]({"params": jax.tree_util.tree_map(jnp.asarray, o[0]["p"]),
                                           **keep["ms"]},
                                          jnp.asarray(states)))
        prob = np.exp(2 * (lp.real - (0 if case["ar"] else lp.real.max())))
        dr = [k for k, t in enumerate(rows) if t in det]
        cr = [k for k, t in enumerate(rows) if t not in det]
        cnt = {}
        for k in dr:
            cnt[rows[k]] = cnt.get(rows[k], 0) + 1
        missing = [t for t in det if t not in cnt]
        twice = [t for t, c in cnt.items() if c > 1]
        if missing:
            res.bad("deterministic-missing", f"{tag}: deterministic configuration {missing[0]} on no rank")
        if twice:
            res.bad("deterministic-twice", f"{tag}: deterministic configuration {twice[0]} appears "
                                           f"{cnt[twice[0]]} times (or was sampled)")
        if len(cr) != case["ns"]:
            res.bad("complement-count", f"{tag}: {len(cr)} complement rows for {case['ns']} samples")
        if res.violation:
            return res
        pd = np.array([prob[index[rows[k]]] for k in dr])
        norms = pd / Wt[dr]
        if np.ptp(norms) > 1e-8 * np.max(norms):
            res.bad("norm-differs", f"{tag}: deterministic weights imply norms {norms.min()} .. {norms.max()}")
        wc = Wt[cr]
        if np.ptp(wc) > 1e-9 * max(1e-3, abs(wc[0])):
            res.bad("complement-weights", f"{tag}: complement weights {wc.min()} .. {wc.max()}")
        if abs(np.sum(Wt) - 1) > 1e-8:
            res.bad("weight-sum", f"{tag}: weights sum to {np.sum(Wt)}")
        norm = float(np.mean(norms))
        if case["ar"]:
            if abs(norm - 1) > 1e-6:
                res.bad("norm", f"{tag}: normalised model, norm {norm}")
        else:
            ncomp = len(states) - len(det)
            pc_all = np.array([prob[i] for t, i in index.items() if t not in det])
            # the norm used by the code is relative to its own rescaling; both are linear in it
            avg = (norm - pd.sum()) / ncomp
            if case["rand_norm"]:
                eps = 1e-9 * norm
                if not (pc_all.min() * (1 - 1e-6) - eps <= avg <= pc_all.max() * (1 + 1e-6) + eps):
                    res.bad("norm", f"{tag}: implied mean complement probability {avg} outside "
                                    f"[{pc_all.min()}, {pc_all.max()}]")
                m = case["nrand"] if case["nrand"] is not None else case["ns"]
                if m <= 7 and not res.violation:
                    sums = mean_of(pc_all, m)
                    if np.min(np.abs(sums / m - avg)) > 1e-9 * norm:
                        res.bad("norm", f"{tag}: implied mean complement probability {avg} is not the mean of "
                                        f"{m} complement configurations")
                    res.probe("norm as mean of the draws")
            else:
                pc = np.array([prob[index[rows[k]]] for k in cr])
                want = len(pc) / np.sum(1 / pc)
                if abs(avg - want) > 1e-6 * want + 1e-9 * norm:
                    res.bad("norm", f"{tag}: implied complement norm {avg} instead of {want}")
        bad = moves(case, o, det, keep["edges"], L) or distribution(case, rows, cr, det, prob, index, keep["edges"])
        if bad:
            res.bad(*(bad[0], f"{tag}: {bad[1]}"))
            return res
        res.note(C.h(X, Wt))
        res.probe("complement repeat", len(set(rows)) < len(rows))
        res.probe("uneven", len(det) % n != 0)
        if len(set(rows)) < len(rows) or len(det) % n:
            res.key = res.digest
        prev = (X, Wt)
    return res
