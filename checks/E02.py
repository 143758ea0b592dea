"""E02: spin-lattice and exclusion-process energies against an independent matrix."""
from __future__ import annotations

import itertools

import numpy as np

from . import common as C, fermi as F, ref, M03
from simlib.runner import Result

PROPERTY = "E02"
RULE = ("nontrivial: the samples contain more than one configuration; keyed by the pooled samples, "
        "operator and model")
REAL = ["get_J1_J2_Hamiltonian (on-the-fly and netket operators), AsymmetricSimpleExclusionProcess",
        "GPSKet models with and without incremental updates",
        "MetropolisExchange / MetropolisFastExchange / ARDirectSampler", "expect dispatch, netket MCState"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (44, 10, 60), "thorough": (800, 6, 1500)}
TOL = 1e-7
MODELS = ["qgps-spin", "qgps-sym", "qgps-symflip", "qgps-flip", "plaq", "plaq-sym", "arfull-con"]


def gen_block(rng, b):
    op = ["otf", "otf", "otf", "asep", "otf", "netket"][b % 6]
    name = MODELS[(b + b // 6) % len(MODELS)]
    n = [1, 2, 1, 1, 3, 1, 2][b % 7]
    fast = op != "asep" and rng.random() < 0.65
    blk = {"n": n, "op": op, "model": name if op != "asep" else "qgps-spin", "fast": fast,
           "chains": rng.choice([1, 2]), "chunk": rng.choice([None, 1, 2]), "per": rng.choice([2, 4]),
           "what": rng.choice(["local", "local", "expect", "grad"])}
    if op == "asep":
        blk["shape"] = [rng.randint(2, 5)]
        if blk["what"] == "grad":
            blk["what"] = "expect"
    elif rng.random() < 0.75 or name.startswith("plaq"):
        blk["shape"] = [rng.choice([4, 6])]
    else:
        blk["shape"] = rng.choice([[3, 2], [2, 3], [2, 2]])
    one = len(blk["shape"]) == 1
    blk["pbc"] = one and rng.random() < 0.6
    if not one and name.endswith("sym") or not one and "sym" in name:
        blk["model"] = "qgps-spin"
    blk["J1"] = rng.choice([1.0, -0.7, 2.0])
    blk["J2"] = rng.choice([0.5, -0.4, 0.0, 0.0])
    blk["rule"] = rng.choice([[True, False], [True, False], [False, False]])
    blk["sz"] = rng.choice([0.0, 0.0, 1.0, -1.0])
    if blk["model"] in ("qgps-flip", "qgps-symflip", "arfull-con"):
        blk["sz"] = 0.0
    return blk


def gen_case(blk, rng, i):
    case = {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6), "scale": rng.choice([0.1, 0.4])}
    if blk["op"] == "asep":
        case["rates"] = [rng.choice([0.0, 0.3, 0.5, 1.1]) for _ in range(6)]
        case["lambd"] = rng.choice([0.0, 0.4, -0.8])
    return case


def shrink(case):
    if case["n"] > 1:
        yield {**case, "n": 1}
        yield {**case, "n": case["n"] - 1}
    if case["chunk"]:
        yield {**case, "chunk": None}
    if case["J2"]:
        yield {**case, "J2": 0.0}


def bonds(shape, pbc, order):
    """Pairs of sites whose distance is the order-th smallest one on the lattice."""
    sites = list(itertools.product(*[range(s) for s in shape]))
    d = {}
    for a, b in itertools.combinations(range(len(sites)), 2):
        q = 0.0
        for x, y, s in zip(sites[a], sites[b], shape):
            k = abs(x - y)
            q += min(k, s - k) ** 2 if pbc else k**2
        d[a, b] = round(q, 6)
    vals = sorted(set(d.values()))
    return [p for p, v in d.items() if order <= len(vals) and v == vals[order - 1]]


def heisenberg(case):
    shape = case["shape"]
    N = int(np.prod(shape))
    states = [s for s in itertools.product((-1, 1), repeat=N) if sum(s) == round(2 * case["sz"])]
    idx = {s: i for i, s in enumerate(states)}
    H = np.zeros((len(states), len(states)))
    terms = [(case["J1"], case["rule"][0], bonds(shape, case["pbc"], 1))]
    if case["J2"]:
        terms.append((case["J2"], case["rule"][1], bonds(shape, case["pbc"], 2)))
    for J, rule, bs in terms:
        for s in states:
            for a, b in bs:
                H[idx[s], idx[s]] += J / 4 * s[a] * s[b]
                if s[a] != s[b]:
                    q = list(s)
                    q[a], q[b] = q[b], q[a]
                    H[idx[s], idx[tuple(q)]] += (-1 if rule else 1) * J / 2
    return states, H


def asep(case):
    """Sum of the boundary and bulk processes, each a two-level matrix with its own loss."""
    L = case["shape"][0]
    al, be, ga, de, p, q = case["rates"]
    lam = case["lambd"]
    cr = np.array([[0.0, 1.0], [0.0, 0.0]])      # row: empty, column: occupied
    an = cr.T
    occ, emp = np.diag([0.0, 1.0]), np.diag([1.0, 0.0])

    def at(*ops):
        m = np.eye(1)
        d = dict(ops)
        for i in range(L):
            m = np.kron(m, d.get(i, np.eye(2)))
        return m
    H = al * (np.exp(lam) * at((0, cr)) - at((0, emp)))
    H = H + ga * (np.exp(-lam) * at((0, an)) - at((0, occ)))
    H = H + be * (np.exp(-lam) * at((L - 1, cr)) - at((L - 1, emp)))
    H = H + de * (np.exp(lam) * at((L - 1, an)) - at((L - 1, occ)))
    for i in range(L - 1):
        H = H + p * (np.exp(lam) * at((i, an), (i + 1, cr)) - at((i, occ), (i + 1, emp)))
        H = H + q * (np.exp(-lam) * at((i, cr), (i + 1, an)) - at((i, emp), (i + 1, occ)))
    return list(itertools.product((0, 1), repeat=L)), H


def run_case(case):
    res = Result()
    n = case["n"]
    L = int(np.prod(case["shape"]))
    w = C.get_world(n)
    keep = {}

    def system(r):
        """Operator, model and sampler; reused in a worker to keep compiled functions."""
        import netket as nk
        import GPSKet
        import jax.numpy as jnp
        from GPSKet.operator import hamiltonian as H
        if case["op"] == "asep":
            hi = nk.hilbert.Qubit(L)
            al, be, ga, de, p, q = case["rates"]
            ha = H.AsymmetricSimpleExclusionProcess(hi, lambd=case["lambd"], alpha=al, beta=be, gamma=ga,
                                                    delta=de, p=p, q=q)
            ma = GPSKet.models.qGPS(hi, 3, dtype=jnp.complex128)
            sa = nk.sampler.MetropolisLocal(hi, n_chains_per_rank=case["chains"])
        else:
            rule = case["rule"] if case["J2"] else case["rule"][0]
            sh = case["shape"]
            ha = H.get_J1_J2_Hamiltonian(sh[0], Ly=sh[1] if len(sh) > 1 else None, J1=case["J1"],
                                         J2=case["J2"], sign_rule=rule, total_sz=case["sz"],
                                         on_the_fly_en=case["op"] == "otf", pbc=case["pbc"])
            hi = ha.hilbert
            ma = M03.build_model({**case, "L": L}, hi)
            if not case["fast"]:
                ma = ma.copy(apply_fast_update=False) if hasattr(ma, "copy") else ma
            if case["model"] == "arfull-con":
                sa = GPSKet.sampler.ARDirectSampler(hi, n_chains_per_rank=case["chains"])
            else:
                mk = GPSKet.sampler.MetropolisFastExchange if case["fast"] else nk.sampler.MetropolisExchange
                sa = mk(hi, graph=nk.graph.Chain(L, pbc=False), n_chains_per_rank=case["chains"])
        return hi, ha, ma, sa

    def prog(r):
        import netket as nk
        key = ("E02", r, n) + tuple(repr(case.get(k)) for k in (
            "op", "shape", "rates", "lambd", "J1", "J2", "rule", "sz", "pbc", "model", "fast", "chains"))
        hi, ha, ma, sa = C.memo(key, lambda: system(r))
        kw = {} if case["model"] == "arfull-con" else {"n_discard_per_chain": 1}
        vs = nk.vqs.MCState(sa, ma, n_samples=n * case["chains"] * case["per"], seed=case["seed"],
                            sampler_seed=case["seed"] + 1, chunk_size=case["chunk"], **kw)
        vs.parameters = C.scaled(vs.parameters, case["scale"], case["seed"])
        if r == 0:
            keep.update(apply=vs._apply_fun, p=C.tree_np(vs.parameters), ms=dict(vs.model_state))
        x = np.array(vs.samples)
        loc = e = g = None
        if case["what"] == "local":
            loc = np.array(vs.local_estimators(ha))
        elif case["what"] == "expect":
            e = vs.expect(ha)
        else:
            e, g = vs.expect_and_grad(ha)
        return {"x": x, "loc": loc, "e": e and (complex(e.mean), float(e.variance)),
                "g": None if g is None else C.ravel(g),
                "dense": np.array(ha.to_dense()) if r == 0 else None,
                "states": np.array(hi.all_states()) if r == 0 else None}

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    vals = C.values(out)
    states, H = asep(case) if case["op"] == "asep" else heisenberg(case)
    order = [tuple(int(v) for v in s) for s in vals[0]["states"]]
    if sorted(order) != sorted(states):
        res.bad("space", "the Hilbert space does not list the configurations of the sector")
        return res
    k = [states.index(s) for s in order]
    if C.differs(vals[0]["dense"], H[np.ix_(k, k)], 1e-9) and np.any(H):
        res.bad("matrix", f"{case['op']}: dense matrix deviates by "
                          f"{C.err(vals[0]['dense'], H[np.ix_(k, k)]):.3g}")
    X = np.concatenate([v["x"].reshape(-1, L) for v in vals])
    if any(tuple(int(a) for a in x) not in states for x in X):
        res.bad("sector", "a sample is outside the sector")
        return res
    with w.as_rank(0):
        R = ref.Ref(F.Sector(states), None, keep["apply"], H=H, mstate=keep["ms"])
        loc = R.eloc(keep["p"], X)
        Wt = np.full(len(X), 1.0 / len(X))
        m = np.sum(Wt * loc)
        v = np.sum(Wt * np.abs(loc - m) ** 2)
        if case["what"] == "grad":
            g = R.energy(keep["p"], X, Wt)[2]
            if np.iscomplexobj(g):
                g = 2 * g   # netket's convention for plain states: twice the force
        off = 0
        for r in range(n if case["what"] == "local" else 0):
            a = vals[r]["loc"].ravel()
            xr = vals[r]["x"].reshape(-1, L)
            b = loc[off:off + len(xr)]
            off += len(xr)
            d = np.max(np.abs(a - b)) / max(1.0, np.max(np.abs(b)))
            if not d <= TOL:
                j = int(np.argmax(np.abs(a - b)))
                res.bad("local-energy", f"{case['op']} {case['model']} fast={case['fast']} rank {r} of {n}: "
                                        f"configuration {xr[j].tolist()}: {a[j]} instead of {b[j]}")
        tag = case["what"]
        res.probe(tag)
        if tag != "local":
            C.same_on_ranks([q["e"][0] for q in vals], f"{tag} mean", res, 1e-10)
            C.same_on_ranks([q["e"][1] for q in vals], f"{tag} variance", res, 1e-8)
            mm, vv = vals[0]["e"]
            if abs(mm - m) > TOL * max(1, abs(m)):
                res.bad("energy", f"{tag}: mean {mm} instead of {m}")
            if abs(vv - v) > TOL * max(1, abs(v), abs(m) ** 2):
                res.bad("energy", f"{tag}: variance {vv} instead of {v}")
            if tag == "grad":
                C.same_on_ranks([q["g"] for q in vals], "gradient", res, 1e-10)
                d = np.max(np.abs(vals[0]["g"] - g)) / max(1.0, np.max(np.abs(g)))
                if not d <= 10 * TOL:
                    res.bad("gradient", f"{case['op']} {case['model']} chunk {case['chunk']}: deviates by {d:.3g}")
    res.note((C.h(X), C.h(loc)))
    res.probe(case["op"])
    res.probe(case["model"] + (" fast" if case["fast"] else ""))
    if len({tuple(x.tolist()) for x in X}) > 1:
        res.key = C.h(X) + case["op"] + case["model"]
    return res
