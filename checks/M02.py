"""M02: random initialisation and hopping/exchange moves of the fermionic samplers."""
from __future__ import annotations

import collections

import numpy as np
from scipy.stats import chi2

from . import common as C, fermi as F
from simlib.runner import Result

PROPERTY = "M02"
RULE = "nontrivial: configurations changed; keyed by the visited configurations and rule"
REAL = ["GPSKet hopping rules, fast and plain samplers, random initialisation of the fermionic space",
        "netket sampler base class and MCState"]
STUB = ["MPI (simulated ranks)"]
BUDGET = {"quick": (32, 4, 110), "thorough": (600, 8, 1500)}
ASSUMPTIONS = ["transition probabilities supplied by the user are symmetric with rows summing to one",
               "proposal symmetry is decided from counted proposals: a single pair has to deviate by 7 standard "
               "deviations, or all pairs together be less likely than 1e-11"]
SECTORS = ((4, (2, 1)), (4, (2, 2)), (3, (1, 2)), (4, (1, 1)), (4, (3, 1)), (3, (1, 1)), (4, (4, 1)), (4, (0, 2)),
           (5, (1, 2)), (3, (2, 2)), (4, (3, 3)), (2, (1, 1)), (4, (4, 4)), (4, (1, 0)))
B = 2048


def gen_block(rng, b):
    L, ne = SECTORS[b % len(SECTORS)]
    return {"L": L, "ne": list(ne), "hop": (1.0, 0.5, 0.0, 0.8)[(b // 2) % 4], "fast": rng.random() < 0.6,
            "trans": rng.random() < 0.4, "n": rng.choice([1, 1, 2, 3]), "chains": rng.choice([1, 3, 6])}


def gen_case(blk, rng, i):
    return {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6), "steps": rng.choice([10, 30]),
            "count": i == 0 and blk["n"] == 1, "none": rng.random() < 0.1}


def shrink(case):
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}
    if case["steps"] > 1:
        yield {**case, "steps": case["steps"] // 2}
    if case["count"]:
        yield {**case, "count": False}
    if case["trans"]:
        yield {**case, "trans": False}


def matrix(L, seed):
    """Symmetric, rows summing to one, some zeros."""
    rs = np.random.RandomState(seed)
    P = np.zeros((L, L))
    for k in range(3):
        p = rs.permutation(L)
        Q = np.zeros((L, L))
        Q[np.arange(L), p] = 1
        P += rs.rand() * (Q + Q.T)
    return P / P.sum(axis=1)[0]


def build(case, r):
    def make():
        import jax
        import jax.numpy as jnp
        import netket as nk
        import GPSKet
        from GPSKet.sampler.fermionic_hopping import MetropolisFastHopping, MetropolisHopping
        hi = GPSKet.hilbert.FermionicDiscreteHilbert(case["L"], n_elec=tuple(case["ne"]))
        kw = {"hop_probability": case["hop"]}
        if case["trans"]:
            P = matrix(case["L"], case["L"] + 1)
            P = (P + P.T) / 2
            kw["transition_probs"] = jnp.asarray(P)
        mk = MetropolisFastHopping if case["fast"] else MetropolisHopping
        sa = mk(hi, n_chains_per_rank=case["chains"], sweep_size=3, **kw)
        ma = GPSKet.models.qGPS(hi, 1, dtype=jnp.float64)
        step = jax.jit(lambda key, x: sa.rule.transition(sa, ma, None, None, key, x))
        init = jax.jit(lambda key: hi.random_state(key, case["chains"]))
        initB = jax.jit(lambda key: hi.random_state(key, 4096))
        return hi, sa, ma, step, init, initB
    return C.memo(("M02", r, case["n"], case["L"], tuple(case["ne"]), case["hop"], case["fast"], case["trans"],
                   case["chains"]), make)


def valid(x, L, ne):
    x = np.asarray(x).reshape(-1, L)
    ok = np.all((x >= 0) & (x <= 3) & (x == np.floor(x)), axis=1)
    xi = x.astype(np.int64)
    return ok & ((xi & 1).sum(axis=1) == ne[0]) & (((xi >> 1) & 1).sum(axis=1) == ne[1])


def kind_of(a, b):
    """'same', 'hop', 'exchange' or None for the move a -> b."""
    d = np.nonzero(a != b)[0]
    if len(d) == 0:
        return "same"
    if len(d) != 2:
        return None
    i, j = d
    fl_i, fl_j = int(a[i]) ^ int(b[i]), int(a[j]) ^ int(b[j])
    if fl_i != fl_j:
        return None
    if fl_i in (1, 2):
        return "hop"
    # both spins change on both sites: an up and a down electron trade places
    if fl_i == 3 and {int(a[i]), int(a[j])} == {1, 2} and int(b[i]) == int(a[j]):
        return "exchange"
    return None


def run_case(case):
    res = Result()
    n, L, ne = case["n"], case["L"], case["ne"]
    w = C.get_world(n)
    stats = {"hop": 0, "exchange": 0, "same": 0}
    hist = []

    def prog(r):
        import jax
        import jax.numpy as jnp
        import netket as nk
        import GPSKet
        hi, sa, ma, step, init, initB = build(case, r)
        key = jax.random.PRNGKey(case["seed"] * 7 + r)

        def inside(x, what):
            ok = valid(x, L, ne)
            if not np.all(ok):
                bad = np.asarray(x).reshape(-1, L)[~ok][0]
                res.bad("sector", f"rank {r} {what}: configuration {bad.tolist()} for {ne} electrons on {L} sites")
                return False
            return True

        key, k1, k2 = jax.random.split(key, 3)
        x = init(k1)
        if not inside(x, "random initialisation") or not inside(initB(k2), "random initialisation"):
            return None
        S = [tuple(int(v) for v in s) for s in F.sector(L, ne)]
        cnt = collections.Counter(map(tuple, np.asarray(initB(k2)).astype(int).tolist()))
        o, e = np.array([cnt[s] for s in S]), 4096 / len(S)
        pv = float(chi2.sf(np.sum((o - e) ** 2) / e, len(S) - 1)) if len(S) > 1 else 1.0
        res.probe("initialisations counted", 4096)
        if pv < 1e-11:
            k = int(np.argmax(np.abs(o - e)))
            res.bad("initialisation", f"rank {r}: 4096 random configurations contain {S[k]} {o[k]} times, "
                                      f"{e:.1f} expected (all: probability {pv:.2g})")
            return None
        if np.asarray(x).shape != (case["chains"], L):
            res.bad("shape", f"random initialisation of {case['chains']} has shape {np.asarray(x).shape}")
            return None
        if case["none"]:
            un = GPSKet.hilbert.FermionicDiscreteHilbert(L)
            y = np.asarray(un.random_state(k2, 400))
            if y.shape != (400, L) or not np.all((y >= 0) & (y <= 3)):
                res.bad("sector", f"unconstrained initialisation gives {y.tolist()}")
                return None
            o = np.array([[np.sum(y[:, i] == v) for v in range(4)] for i in range(L)])
            if float(chi2.sf(np.sum((o - 100.0) ** 2) / 100.0, 3 * L)) < 1e-11:
                res.bad("initialisation", f"unconstrained initialisation: occupations per site {o.tolist()} of 400")
                return None
        for t in range(case["steps"]):
            key, k = jax.random.split(key)
            out = step(k, x)
            a, b = np.asarray(x), np.asarray(out[0])
            if b.dtype != a.dtype or b.shape != a.shape:
                res.bad("shape", f"a move turns {a.dtype}{a.shape} into {b.dtype}{b.shape}")
                return None
            if not inside(b, f"move {t} from {a.tolist()}"):
                return None
            if case["fast"]:
                s = np.asarray(out[2])
                for c in range(len(a)):
                    d = np.nonzero(a[c] != b[c])[0]
                    if s.shape[1] > 2 or not set(d.tolist()) <= set(s[c].tolist()):
                        res.bad("sites", f"rank {r} move {t}: {a[c]} -> {b[c]} reported sites {s[c]}")
                        return None
            for c in range(len(a)):
                kd = kind_of(a[c], b[c])
                if kd is None or (kd == "exchange" and case["hop"] == 1.0) or (kd == "hop" and case["hop"] == 0.0):
                    res.bad("move", f"rank {r} move {t}: {a[c]} -> {b[c]} is no allowed move "
                                    f"(hop probability {case['hop']})")
                    return None
                stats[kd] += 1
            x = out[0]
            hist.append(b.tobytes())
        # whole sampler
        vs = nk.vqs.MCState(sa, ma, n_samples_per_rank=case["chains"] * 4, n_discard_per_chain=1,
                            seed=case["seed"], sampler_seed=case["seed"] + 3)
        for j in range(2):
            s = np.array(vs.samples)
            if not inside(s, f"samples {j}"):
                return None
            hist.append(s.tobytes())
            vs.reset()
        return None

    C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    if case["count"]:
        symmetry(case, res, w)
    res.note((len(hist), hash_of(hist)))
    for k, v in stats.items():
        res.probe("moves: " + k, v)
    res.samples = dict(stats)
    if stats["hop"] + stats["exchange"]:
        res.key = res.digest + f"|{case['hop']}|{case['trans']}"
    return res


def hash_of(hist):
    import hashlib
    return hashlib.sha256(b"".join(hist)).hexdigest()[:12]


def symmetry(case, res, w):
    """Counted proposals between all pairs of configurations of the sector."""
    L, ne = case["L"], case["ne"]
    S = np.array(F.sector(L, ne), dtype=np.uint8)
    idx = {s.tobytes(): i for i, s in enumerate(S)}
    N = np.zeros((len(S), len(S)))
    with w.as_rank(0):
        import jax
        import jax.numpy as jnp
        hi, sa, ma, step, init, initB = build(case, 0)
        key = jax.random.PRNGKey(case["seed"] + 99)
        per = B
        rows = np.repeat(np.arange(len(S)), per)
        blk = 4096
        for i in range(0, len(rows), blk):
            key, k = jax.random.split(key)
            rr = rows[i:i + blk]
            xx = S[rr]
            if len(rr) < blk:
                xx = np.concatenate([xx, np.repeat(S[:1], blk - len(rr), axis=0)])
            y = np.asarray(step(k, jnp.asarray(xx))[0])[:len(rr)]
            for q, a in zip(rr, y):
                j = idx.get(a.tobytes())
                if j is None:
                    res.bad("sector", f"{S[q]} -> {a} leaves the sector {ne}")
                    return
                N[q, j] += 1
    if not case["trans"]:
        # every allowed move is proposed
        for i, a in enumerate(S):
            for j, b in enumerate(S):
                kd = kind_of(a, b)
                if N[i, j] == 0 and ((kd == "hop" and case["hop"] > 0) or (kd == "exchange" and case["hop"] < 1)):
                    res.bad("never", f"{a} -> {b} ({kd}) is never proposed in {B} moves (hop probability {case['hop']})")
                    return
        res.probe("all allowed moves proposed")
    iu = np.triu_indices(len(S), 1)
    up, dn = N[iu], N.T[iu]
    tot = up + dn
    m = tot > 0
    z = (up[m] - dn[m]) / np.sqrt(tot[m])
    res.probe("pairs counted", int(m.sum()))
    if not m.any():
        return
    k = int(np.argmax(np.abs(z)))
    i, j = iu[0][m][k], iu[1][m][k]
    pv = float(chi2.sf(np.sum(z ** 2), len(z)))
    if abs(z[k]) > 7 or pv < 1e-11:
        res.bad("asymmetric", f"{S[i]} -> {S[j]} proposed {int(N[i, j])} times, the reverse {int(N[j, i])} of {B} "
                              f"(hop probability {case['hop']}, all pairs: probability {pv:.2g})")
