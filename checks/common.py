"""Shared pieces of the checks: worlds, running a job, small systems, comparisons."""
from __future__ import annotations

import hashlib

import numpy as np

from simlib import core, world as W
from simlib.core import Sim, HarnessError
from simlib.runner import Result

_worlds = {}


def get_world(n, packages=("netket", "GPSKet"), prelude=None, key=""):
    k = (n, tuple(packages), key)
    if k not in _worlds:
        _worlds[k] = W.World(n, packages=packages, prelude=prelude)
    return _worlds[k]


_memo = {}


def memo(key, build):
    """Objects reused between the runs of a worker (to keep compiled functions)."""
    if key not in _memo:
        _memo[key] = build()
    return _memo[key]


def sched_fields(rng):
    return {"sched": rng.randrange(1, 10**6), "policy": rng.choice(core.POLICIES)}


def run_job(case, n, prog, res, world=None, faults=(), max_steps=40000, allow_exc=False,
            salt=0, decisions=None):
    """One simulated job; protocol violations and exceptions become violations."""
    w = world or get_world(n)
    sim = Sim(n, seed=case.get("sched", 0) * 31 + salt, policy=case.get("policy", "roundrobin"),
              decisions=decisions, faults=faults, world=w, max_steps=max_steps)
    out = sim.run(prog)
    res.absorb(sim)
    if not allow_exc:
        for r, o in enumerate(out):
            if o[0] == "exc":
                res.bad(f"exception:{type(o[1]).__name__}",
                        f"rank {r} of {n}: {core.label_of(o[1])}\n" + short_tb(sim.ranks[r].tb))
                break
    return sim, out


def short_tb(tb):
    lines = [x for x in tb.splitlines() if "/repo/" in x or "GPSKet" in x]
    return " | ".join(x.strip() for x in lines[-4:])


def values(out):
    return [o[1] for o in out]


def h(*arrays):
    """Short hash of arrays (rounded), for digests and nontriviality keys."""
    m = hashlib.sha256()
    for a in arrays:
        a = np.asarray(a)
        if a.dtype.kind in "fc":
            a = np.round(a, 6) + 0.0
        m.update(np.ascontiguousarray(a).tobytes())
    return m.hexdigest()[:12]


def err(a, b):
    """Largest deviation relative to the scale of b."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return 0.0 if np.array_equal(a, b, equal_nan=True) else float("inf")
    scale = max(1e-12, float(np.max(np.abs(b))))
    return float(np.max(np.abs(a - b))) / scale


def differs(a, b, tol):
    e = err(a, b)
    return not (e <= tol)


def tree_np(t):
    import jax
    return jax.tree_util.tree_map(lambda x: np.array(x), t)


def ravel(t):
    import jax
    return np.concatenate([np.asarray(x).ravel() for x in jax.tree_util.tree_leaves(t)])


def same_on_ranks(vals, what, res, tol=0.0):
    """All ranks hold the same value (bitwise for tol = 0)."""
    for r in range(1, len(vals)):
        a, b = np.asarray(vals[r]), np.asarray(vals[0])
        if a.shape != b.shape or (not np.array_equal(a, b, equal_nan=True) if tol == 0.0
                                  else differs(a, b, tol)):
            res.bad("ranks-differ", f"{what}: rank {r} differs from rank 0: {a.ravel()[:4]} vs "
                                    f"{b.ravel()[:4]}")
            return False
    return True


# ---------------------------------------------------------------------------
# small systems, built inside a rank (imports resolve to that rank's modules)

def scaled(params, scale, seed, dtype=None):
    """Parameters around one with seeded noise, the same on every rank."""
    import jax
    rs = np.random.RandomState(seed)

    def f(x):
        x = np.asarray(x)
        d = rs.randn(*x.shape)
        if np.iscomplexobj(x):
            d = d + 1j * rs.randn(*x.shape)
        return jax.numpy.asarray((x + scale * d).astype(x.dtype))
    return jax.tree_util.tree_map(f, params)


def spin_system(L, sz):
    import netket as nk
    hi = nk.hilbert.Spin(0.5, N=L, total_sz=0 if sz else None, inverted_ordering=True)
    g = nk.graph.Chain(L)
    if sz:
        ha = nk.operator.Heisenberg(hi, g)
    else:
        ha = nk.operator.Ising(hi, g, h=1.3)
    return hi, g, ha


def qgps(hi, M, dtype):
    import GPSKet
    import jax.numpy as jnp
    d = jnp.complex128 if dtype == "complex" else jnp.float64
    return GPSKet.models.qGPS(hi, M, dtype=d)


def all_states(hi):
    return np.asarray(hi.all_states())


def complex_out(x):
    """Real parameters, complex amplitudes (three support points)."""
    import jax.numpy as jnp
    return jnp.sum(x * jnp.asarray([1.0, 1.0j, 0.5 - 0.3j])[..., :, None], axis=(-2, -1))


def qgps_complexreal(hi):
    import GPSKet
    import jax.numpy as jnp
    return GPSKet.models.qGPS(hi, 3, dtype=jnp.float64, out_transformation=complex_out)


def dense_solve(A, b):
    import jax.numpy as jnp
    return jnp.linalg.solve(A, b)
