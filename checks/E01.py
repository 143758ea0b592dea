"""E01: fermionic local energies, energies and gradients against an independent matrix."""
from __future__ import annotations

import numpy as np

from . import common as C, fermi as F, ref
from simlib.runner import Result

PROPERTY = "E01"
RULE = ("nontrivial: the samples contain more than one configuration; keyed by the pooled samples, "
        "operator and model")
REAL = ["FermiHubbard(OnTheFly), AbInitioHamiltonian(OnTheFly, Sparse)", "GPSKet models with and without "
        "incremental updates", "MetropolisHopping / MetropolisFastHopping", "expect dispatch, netket MCState"]
STUB = ["MPI transport (simulated collectives, seeded schedule and reduction order)"]
BUDGET = {"quick": (40, 6, 65), "thorough": (800, 6, 1800)}
TOL = 1e-7
OPS = ["hubbard", "hubbard-otf", "abinitio", "abinitio-otf", "sparse"]


FAST = [m for m in F.MODELS if m != "jastrow-slater"]
PAIRS = [(o, m) for m in FAST for o in ("abinitio-otf", "sparse", "hubbard-otf")]
PAIRS = [PAIRS[(7 * k) % len(PAIRS)] for k in range(len(PAIRS))]   # 7 is coprime to 36


def gen_block(rng, b):
    if b % 6 in (1, 5):
        fast = rng.random() < 0.3
        op = rng.choice(OPS + ["hubbard", "abinitio"] * 2)
        name = rng.choice(FAST if fast else list(F.MODELS))
    else:
        fast = True
        op, name = PAIRS[(4 * (b // 6) + (0, 0, 1, 2, 3, 3)[b % 6]) % len(PAIRS)]
    n = [1, 1, 2, 1, 1, 1, 3, 1, 1, 2, 1][b % 11]
    L = rng.choice([3, 4]) if op != "hubbard-otf" else rng.choice([3, 4, 5])
    ne = rng.choice([(1, 1), (2, 1), (2, 2), (2, 2), (1, 2), (2, 3), (3, 1)])
    ne = (min(ne[0], L - 1), min(ne[1], L - 1))
    return {"n": n, "op": op, "L": L, "ne": list(ne), "model": name, "fast": fast,
            "chains": rng.choice([1, 2]), "chunk": rng.choice([None, 1, 2]), "per": rng.choice([2, 4]),
            "nedges": rng.randint(0 if op == "hubbard-otf" else 1, 5), "tlist": rng.random() < 0.6,
            "what": rng.choice(["local", "local", "expect", "grad"] if n == 1 else
                               ["expect", "grad", "local"]), "density": rng.choice([1.0, 0.5, 0.2]),
            "mask": rng.randrange(10**6)}


def gen_case(blk, rng, i):
    return {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6),
            "scale": rng.choice([0.1, 0.5]), "U": rng.choice([0.0, 2.0, -1.5])}


def shrink(case):
    if case["n"] > 1:
        yield {**case, "n": 1}
        yield {**case, "n": case["n"] - 1}
    if case["nedges"] > 1 and "hubbard" in case["op"]:
        yield {**case, "nedges": 1}
    if case["chunk"]:
        yield {**case, "chunk": None}


def edges_of(case):
    rs = np.random.RandomState(case["seed"] + 3)
    L = case["L"]
    pairs = [(i, j) for i in range(L) for j in range(L) if i != j]
    k = rs.permutation(len(pairs))[:case["nedges"]]
    e = [pairs[i] for i in k]
    t = (0.5 + rs.rand(len(e))) if case["tlist"] else np.ones(len(e)) * 1.3
    return e, t


def run_case(case):
    res = Result()
    n, L, ne = case["n"], case["L"], tuple(case["ne"])
    w = C.get_world(n)
    keep = {}
    h, eri = F.integrals(L, case["seed"], case["density"], case["mask"])
    edges, t = edges_of(case)

    def prog(r):
        import netket as nk
        import GPSKet
        from GPSKet.operator import hamiltonian as H

        hi = GPSKet.hilbert.FermionicDiscreteHilbert(L, n_elec=ne)
        if case["op"].startswith("hubbard"):
            cls = H.FermiHubbardOnTheFly if case["op"].endswith("otf") else H.FermiHubbard
            ha = cls(hi, edges, U=case["U"], t=list(t) if case["tlist"] else 1.3)
        else:
            cls = {"abinitio": H.AbInitioHamiltonian, "abinitio-otf": H.AbInitioHamiltonianOnTheFly,
                   "sparse": H.AbInitioHamiltonianSparse}[case["op"]]
            ha = cls(hi, h.copy(), eri.copy())
        ma = F.model(case["model"], hi, case["fast"])
        mk = GPSKet.sampler.MetropolisFastHopping if case["fast"] else GPSKet.sampler.MetropolisHopping
        sa = mk(hi, n_chains_per_rank=case["chains"])
        ns = n * case["chains"] * case["per"]
        vs = nk.vqs.MCState(sa, ma, n_samples=ns, n_discard_per_chain=1, seed=case["seed"],
                            sampler_seed=case["seed"] + 1, chunk_size=case["chunk"])
        vs.parameters = F.reseed(vs.parameters, case["seed"], case["scale"])
        if r == 0:
            keep.update(apply=vs._apply_fun, p=C.tree_np(vs.parameters), ms=dict(vs.model_state))
        x = np.array(vs.samples)
        loc = e = g = None
        if case["what"] == "local":
            loc = np.array(vs.local_estimators(ha))
        elif case["what"] == "expect":
            e = vs.expect(ha)
        else:
            e, g = vs.expect_and_grad(ha)
        conn = None
        if r == 0 and case["op"] in ("hubbard", "abinitio"):
            conn = np.array(ha.to_dense())
        return {"x": x, "loc": loc, "e": e and (complex(e.mean), float(e.variance)),
                "g": None if g is None else C.ravel(g), "dense": conn,
                "states": np.array(hi.all_states()) if r == 0 else None}

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    vals = C.values(out)
    if case["op"].startswith("hubbard"):
        states, H = F.hubbard_matrix(L, ne, edges, t, case["U"])
    else:
        states, H = F.ab_initio_matrix(L, ne, h, eri)
    order = [tuple(int(v) for v in s) for s in vals[0]["states"]]
    if sorted(order) != states:
        res.bad("space", "the Hilbert space does not list the configurations of the sector")
        return res
    if vals[0]["dense"] is not None:
        k = [states.index(s) for s in order]
        if C.differs(vals[0]["dense"], H[np.ix_(k, k)], 1e-9):
            res.bad("matrix", f"{case['op']}: dense matrix deviates by "
                              f"{C.err(vals[0]['dense'], H[np.ix_(k, k)]):.3g}")
    X = np.concatenate([v["x"].reshape(-1, L) for v in vals])
    if any(tuple(int(a) for a in x) not in states for x in X):
        res.bad("sector", "a sample is outside the sector")
        return res
    with w.as_rank(0):
        R = ref.Ref(F.Sector(states), None, keep["apply"], H=H, mstate=keep["ms"])
        loc = R.eloc(keep["p"], X)
        Wt = np.full(len(X), 1.0 / len(X))
        m = np.sum(Wt * loc)
        v = np.sum(Wt * np.abs(loc - m) ** 2)
        if case["what"] == "grad":
            g = R.energy(keep["p"], X, Wt)[2]
            if np.iscomplexobj(g):
                g = 2 * g   # netket's convention for plain states: twice the force
        off = 0
        for r in range(n if case["what"] == "local" else 0):
            a = vals[r]["loc"].ravel()
            xr = vals[r]["x"].reshape(-1, L)
            b = loc[off:off + len(xr)]
            off += len(xr)
            if vals[r]["loc"].shape != vals[r]["x"].shape[:-1]:
                # netket keeps the chain layout
                a = a.reshape(-1)
            d = np.max(np.abs(a - b)) / max(1.0, np.max(np.abs(b)))
            if not d <= TOL:
                k = int(np.argmax(np.abs(a - b)))
                res.bad("local-energy", f"{case['op']} {case['model']} fast={case['fast']} rank {r} of {n}: "
                                        f"configuration {xr[k].tolist()}: {a[k]} instead of {b[k]}")
        tag = case["what"]
        res.probe(tag)
        if tag != "local":
            C.same_on_ranks([q["e"][0] for q in vals], f"{tag} mean", res, 1e-10)
            C.same_on_ranks([q["e"][1] for q in vals], f"{tag} variance", res, 1e-8)
            mm, vv = vals[0]["e"]
            if abs(mm - m) > TOL * max(1, abs(m)):
                res.bad("energy", f"{tag}: mean {mm} instead of {m}")
            if abs(vv - v) > TOL * max(1, abs(v), abs(m) ** 2):
                res.bad("energy", f"{tag}: variance {vv} instead of {v}")
            if tag == "grad":
                C.same_on_ranks([q["g"] for q in vals], "gradient", res, 1e-10)
                d = np.max(np.abs(vals[0]["g"] - g)) / max(1.0, np.max(np.abs(g)))
                if not d <= 10 * TOL:
                    res.bad("gradient", f"{case['op']} {case['model']} chunk {case['chunk']}: deviates by {d:.3g}")
    res.note((C.h(X), C.h(loc)))
    res.probe(case["op"])
    res.probe(case["model"] + (" fast" if case["fast"] else ""))
    if len({tuple(x.tolist()) for x in X}) > 1:
        res.key = C.h(X) + case["op"] + case["model"]
    return res
