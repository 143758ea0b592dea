"""M03: histories of cached local updates against amplitudes evaluated from scratch."""
from __future__ import annotations

import numpy as np

from . import common as C, fermi as F
from simlib.runner import Result

PROPERTY = "M03"
RULE = "nontrivial: at least one cached update changed a configuration; keyed by model and update history"
REAL = ["GPSKet models with incremental updates (flax modules, jitted)"]
STUB = []
BUDGET = {"quick": (58, 12, 75), "thorough": (1000, 20, 1500)}
ASSUMPTIONS = ["a site listed twice in one update carries its new occupation first and its previous "
               "occupation afterwards (the convention of the on-the-fly Hamiltonians)",
               "proposals whose amplitude is below 1e-3 of the current one are not stored "
               "(they would only test rounding)"]
SPIN = ("qgps-spin", "qgps-sym", "qgps-symflip", "qgps-flip", "plaq", "plaq-sym", "arfull", "arfull-list",
        "arfull-sym", "arfull-con")
ALL = ([m for m in F.MODELS if m != "jastrow-slater"] + list(SPIN)
       + ["slater-sym", "slater-symmulti", "slater-s2", "slater-s2ot", "slater-restr", "slaterqgps-sym"])


def gen_block(rng, b):
    name = ALL[b % len(ALL)] if b < len(ALL) else rng.choice(ALL)
    L = rng.choice([4, 5, 6])
    if name in SPIN and L % 2:
        L = 4
    ne = rng.choice([(1, 1), (2, 1), (2, 2), (1, 2), (2, 3), (3, 2)])
    return {"model": name, "L": L, "ne": [min(e, L - 1) for e in ne], "B": rng.choice([1, 2, 3])}


def gen_case(blk, rng, i):
    return {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6), "scale": rng.choice([0.1, 0.4]),
            "steps": rng.randint(6, 24), "p_dup": rng.choice([0.0, 0.3]),
            "p_discard": rng.choice([0.0, 0.3, 0.7])}


def shrink(case):
    if case["steps"] > 1:
        yield {**case, "steps": case["steps"] // 2}
        yield {**case, "steps": case["steps"] - 1}
    if case["p_dup"]:
        yield {**case, "p_dup": 0.0}
    if case["p_discard"]:
        yield {**case, "p_discard": 0.0}


def build_model(case, hi):
    import GPSKet
    import jax.numpy as jnp
    import netket as nk
    from netket.utils import HashableArray
    m = GPSKet.models
    name, L = case["model"], case["L"]
    g = nk.graph.Chain(L)
    syms = {"qgps-sym": (True, False), "qgps-symflip": (True, True), "qgps-flip": (False, True),
            "plaq-sym": (True, False), "arfull-sym": (True, False)}.get(name)
    tr = m.get_sym_transformation_spin(g, *syms) if syms else None
    if name.startswith("qgps"):
        kw = {"syms": tr} if tr else {}
        ma = m.qGPS(hi, 3, dtype=jnp.complex128, apply_fast_update=True, **kw)
    elif name.startswith("plaq"):
        kw = {"syms": tr} if tr else {}
        pl = np.array([[(i + d) % L for d in range(3)] for i in range(L)])
        from GPSKet.models.plaquetteqGPS import PlaquetteqGPS
        ma = PlaquetteqGPS(hi, 2, HashableArray(pl), dtype=jnp.complex128,
                           apply_fast_update=True, **kw)
    else:
        kw = {"apply_symmetries": tr} if tr else {}
        M = HashableArray(np.array([1 + (i % 3) for i in range(L)])) if name == "arfull-list" else 2
        ma = m.ARqGPSFull(hi, M, dtype=jnp.complex128, apply_fast_update=True, **kw)
    return ma


def build(case):
    """Model on a space; cached so that compiled functions are reused."""
    def make():
        import netket as nk
        import GPSKet
        import jax
        import jax.numpy as jnp
        from netket.utils import HashableArray
        m = GPSKet.models
        name, L = case["model"], case["L"]
        if name in SPIN:
            con = name == "arfull-con"
            hi = nk.hilbert.Spin(0.5, N=L, total_sz=0 if con else None, inverted_ordering=True)
            ma = build_model(case, hi)
        else:
            hi = GPSKet.hilbert.FermionicDiscreteHilbert(L, n_elec=tuple(case["ne"]))
            ma = F.model(name, hi, True)
        full = jax.jit(lambda v, x: ma.apply(v, x))
        store = jax.jit(lambda v, x: ma.apply(v, x, mutable="intermediates_cache",
                                              cache_intermediates=True))
        upd = jax.jit(lambda v, o, s: ma.apply(v, o, mutable="intermediates_cache",
                                               cache_intermediates=True, update_sites=s))
        peek = jax.jit(lambda v, o, s: ma.apply(v, o, update_sites=s))
        return hi, ma, full, store, upd, peek
    return C.memo(("M03", case["model"], case["L"], tuple(case["ne"])), make)


def propose(rs, case, x):
    """New configuration and the sites it may differ at (all rows list `k` sites)."""
    L = case["L"]
    spin = case["model"] in SPIN
    kind = rs.randint(0, 4)
    B = len(x)
    y = x.copy()
    sites = []
    for b in range(B):
        if spin:
            if case["model"] == "arfull-con":
                i, j = rs.permutation(L)[:2]
                y[b, i], y[b, j] = x[b, j], x[b, i]
                s = [i, j]
            else:
                s = list(rs.permutation(L)[:2 if kind < 3 else 3])
                for i in s:
                    if rs.rand() < 0.7:
                        y[b, i] = -x[b, i]
        else:
            # one hop, an exchange or two hops of the same or different spin
            z = x[b].copy()
            s = []
            hops = 1 if kind < 3 else 2
            for _ in range(hops):
                sp = 1 + rs.randint(0, 2)
                occ = [i for i in range(L) if z[i] & sp]
                emp = [i for i in range(L) if not z[i] & sp]
                if not occ or not emp:
                    occ, emp = [0], [1]
                    s += [0, 1]
                    continue
                i, a = occ[rs.randint(len(occ))], emp[rs.randint(len(emp))]
                if kind == 2:
                    # exchange of the two sites' contents (keeps electron numbers)
                    z[i], z[a] = z[a], z[i]
                else:
                    z[i] -= sp
                    z[a] += sp
                s += [i, a]
            y[b] = z
        sites.append(s)
    # the same number of entries per row; no-change entries fill up
    k = max(len(s) for s in sites)
    k = k if k % 2 == 0 or spin else k + 1
    if spin and case["p_dup"] and k == 2 and rs.rand() < case["p_dup"]:
        k = 4
    out = np.zeros((B, k), dtype=int)
    occ = np.zeros((B, k), dtype=x.dtype)
    dup = False
    for b in range(B):
        s = [int(i) for i in sites[b]]
        ordered = []
        rest = []
        for i in s:
            (rest if i in ordered else ordered).append(i)
        if case["p_dup"] and rs.rand() < case["p_dup"] and len(ordered) < k:
            rest.append(ordered[rs.randint(len(ordered))])
        free = [i for i in range(L) if i not in ordered]
        while len(ordered) + len(rest) < k:
            if free:
                ordered.append(free.pop(rs.randint(len(free))))
            else:
                rest.append(ordered[0])
        row = (ordered + rest)[:k]
        vals = [y[b, i] for i in ordered] + [x[b, i] for i in rest]
        out[b], occ[b] = row, vals[:k]
        dup |= bool(rest)
    return y, out, occ, dup


def run_case(case):
    res = Result()
    w = C.get_world(1)
    obs = []

    def prog(r):
        import jax
        import jax.numpy as jnp
        hi, ma, full, store, upd, peek = build(case)
        rs = np.random.RandomState(case["seed"])
        spin = case["model"] in SPIN
        L = case["L"]
        states = (np.asarray(hi.all_states()).astype(float) if spin
                  else np.array(F.sector(L, case["ne"]), dtype=np.uint8))
        x = states[rs.randint(0, len(states), size=case["B"])]
        v = dict(C.memo(("M03init", case["model"], L, tuple(case["ne"])),
                        lambda: ma.init(jax.random.PRNGKey(0), jnp.asarray(states[:2]))))
        p = F.reseed(v.pop("params"), case["seed"], case["scale"])
        base = {"params": p, **v}
        la, cache = store(base, jnp.asarray(x))
        worst = 0.0
        changed = dups = 0
        hist = []

        def same(a, b, what):
            nonlocal worst
            d = float(np.max(np.abs(np.exp(np.asarray(a) - np.asarray(b)) - 1)))
            worst = max(worst, d)
            if not d <= 1e-6:
                res.bad("amplitude", f"{case['model']} L={L} {what}: relative deviation {d:.3g}")
            return d

        same(la, full(base, jnp.asarray(x)), "value returned while storing")
        for t in range(case["steps"]):
            y, s, o, dup = propose(rs, case, x)
            ly = np.asarray(full(base, jnp.asarray(y)))
            lx = np.asarray(full(base, jnp.asarray(x)))
            if not np.all(np.isfinite(ly)) or not np.all(np.abs(np.exp(ly - lx)) > 1e-3):
                continue
            before = jax.tree_util.tree_map(np.array, cache)
            vv = {**base, **cache}
            mode = rs.rand()
            what = f"step {t} sites {s.tolist()} from {x.tolist()} to {y.tolist()}"
            lp = peek(vv, jnp.asarray(o), jnp.asarray(s))
            same(lp, ly, what + " (not cached)")
            if mode < 0.8:
                lu, new = upd(vv, jnp.asarray(o), jnp.asarray(s))
                same(lu, ly, what + " (cached)")
                for a, b in zip(jax.tree_util.tree_leaves(before), jax.tree_util.tree_leaves(cache)):
                    if not np.array_equal(a, np.asarray(b), equal_nan=True):
                        res.bad("cache", f"{what}: the stored cache was altered")
                if rs.rand() >= case["p_discard"]:
                    x, cache = y, new
                    changed += bool(np.any(s >= 0))
                    dups += dup
                    hist.append((s.tolist(), o.tolist()))
            if res.violation:
                break
        obs.append((changed, dups, worst, hist))
        return None

    C.run_job(case, 1, prog, res, world=w)
    if not obs:
        return res
    changed, dups, worst, hist = obs[0]
    res.note((C.h(np.array([len(hist)])), repr(hist)))
    res.probe(case["model"])
    res.probe("cached updates kept", changed)
    res.probe("updates listing a site twice", dups)
    res.samples = {"worst_deviation": worst, "kept_updates": changed}
    if changed:
        res.key = res.digest
    return res
