"""Fermionic systems: models with incremental updates, an independent matrix of the
second-quantised operator (Jordan-Wigner, all up orbitals before all down orbitals)."""
from __future__ import annotations

import itertools

import numpy as np

from . import common as C


def sector(L, n_elec):
    """All occupations (0 empty, 1 up, 2 down, 3 both) with the given electron numbers."""
    out = []
    for up in itertools.combinations(range(L), n_elec[0]):
        for dn in itertools.combinations(range(L), n_elec[1]):
            x = [0] * L
            for i in up:
                x[i] += 1
            for i in dn:
                x[i] += 2
            out.append(tuple(x))
    return sorted(out)


def _bits(x):
    return [v & 1 for v in x] + [(v >> 1) & 1 for v in x]


def excitation(states, L, p, q):
    """Matrix of E_pq = sum_s c+_ps c_qs: column = right state."""
    index = {s: k for k, s in enumerate(states)}
    M = np.zeros((len(states), len(states)))
    for k, s in enumerate(states):
        for spin in (0, 1):
            b = _bits(s)
            i, a = q + spin * L, p + spin * L
            if not b[i]:
                continue
            sign = (-1) ** sum(b[:i])
            b[i] = 0
            if b[a]:
                continue
            sign *= (-1) ** sum(b[:a])
            b[a] = 1
            t = tuple(b[j] + 2 * b[j + L] for j in range(L))
            M[index[t], k] += sign
    return M


_E = {}


def excitations(L, n_elec):
    key = (L, tuple(n_elec))
    if key not in _E:
        st = sector(L, n_elec)
        _E[key] = (st, [[excitation(st, L, p, q) for q in range(L)] for p in range(L)])
    return _E[key]


def ab_initio_matrix(L, n_elec, h, eri):
    st, E = excitations(L, n_elec)
    H = np.zeros((len(st), len(st)))
    for p in range(L):
        for q in range(L):
            H += h[p, q] * E[p][q]
            for r in range(L):
                H -= 0.5 * eri[p, r, r, q] * E[p][q]
                for s in range(L):
                    if eri[p, q, r, s] != 0:
                        H += 0.5 * eri[p, q, r, s] * (E[p][q] @ E[r][s])
    return st, H


def hubbard_matrix(L, n_elec, edges, t, U):
    st, E = excitations(L, n_elec)
    H = np.diag([U * sum(v == 3 for v in s) for s in st]).astype(float)
    for (i, j), tt in zip(edges, t):
        H -= tt * (E[i][j] + E[j][i])
    return st, H


def integrals(L, seed, density=1.0, mask_seed=0):
    """Random real integrals with the eight-fold symmetry; `density` < 1 leaves zeros."""
    rs = np.random.RandomState(seed)
    h = rs.randn(L, L)
    h = (h + h.T) / 2
    e = rs.randn(L, L, L, L)
    e = e + e.transpose(1, 0, 2, 3)
    e = e + e.transpose(0, 1, 3, 2)
    e = (e + e.transpose(2, 3, 0, 1)) / 8
    if density < 1:
        m = np.random.RandomState(mask_seed).rand(L, L) < density
        m = m | m.T | np.eye(L, dtype=bool)
        h = np.where(m, h, 0.0)
        e = np.where(m[:, :, None, None] & m[None, None, :, :], e, 0.0)
    return h, e


class Sector:
    """Drop-in for the parts of netket's Hilbert space the reference needs."""

    def __init__(self, states):
        self._s = np.array(states, dtype=np.int8 if min(map(min, states)) < 0 else np.uint8)

    def all_states(self):
        return self._s


# -- models ------------------------------------------------------------------

def bf_out(L, N):
    def build():
        import jax.numpy as jnp

        def out(x):
            # (B, M, T) -> (B, L, N, T)
            return jnp.sum(x.reshape(x.shape[0], -1, L, N, x.shape[-1]), axis=1)
        return out
    return C.memo(("bf_out", L, N), build)


def reflections(L):
    """Electron positions on the lattice and on its mirror image."""
    def make():
        import jax.numpy as jnp
        return lambda y: jnp.stack([y, L - 1 - y], axis=-1)
    return C.memo(("reflections", L), make)


MODELS = ("qgps", "qgps-real", "slater", "slater-gen", "slater-multi", "slater-ot", "slaterqgps",
          "backflow", "backflow-unres", "cpd", "cpd-unres", "cpd-gen", "jastrow-slater")


def model(name, hi, fast=True, rank=0):
    """A model of the given kind on the fermionic space `hi`."""
    import jax
    import jax.numpy as jnp
    import GPSKet
    m = GPSKet.models
    L = hi.size
    N = sum(hi._n_elec)
    nrm = C.memo("nrm", lambda: jax.nn.initializers.normal(1.0))
    if name == "qgps":
        return m.qGPS(hi, 2, dtype=jnp.complex128, apply_fast_update=fast)
    if name == "qgps-real":
        return m.qGPS(hi, 2, dtype=jnp.float64, apply_fast_update=fast)
    if name == "slater":
        return m.Slater(hi, dtype=jnp.complex128, init_fun=nrm, apply_fast_update=fast)
    if name == "slater-gen":
        return m.Slater(hi, dtype=jnp.float64, init_fun=nrm, fixed_magnetization=False,
                        apply_fast_update=fast)
    if name == "slater-multi":
        return m.Slater(hi, n_determinants=2, dtype=jnp.complex128, init_fun=nrm,
                        apply_fast_update=fast)
    if name == "slater-ot":
        return m.Slater(hi, dtype=jnp.complex128, init_fun=nrm, constant_time_updates=False,
                        apply_fast_update=fast)
    if name in ("slater-sym", "slater-symmulti"):
        return m.Slater(hi, dtype=jnp.complex128, init_fun=nrm, symmetries=reflections(L),
                        n_determinants=2 if "multi" in name else 1, constant_time_updates="multi" not in name,
                        apply_fast_update=fast)
    if name in ("slater-s2", "slater-s2ot"):
        from netket.utils import HashableArray
        s2 = C.memo("s2", lambda: (HashableArray(np.array([0.2, 0.9, 1.7])), HashableArray(np.array([0.5, 0.8, 0.3]))))
        return m.Slater(hi, dtype=jnp.complex128, init_fun=nrm, S2_projection=s2,
                        constant_time_updates="ot" not in name, apply_fast_update=fast)
    if name == "slater-restr":
        return m.Slater(hi, dtype=jnp.complex128, init_fun=nrm, spin_symmetry_by_structure=hi._n_elec[0] == hi._n_elec[1],
                        apply_fast_update=fast)
    if name == "slaterqgps-sym":
        return m.SlaterqGPS(hi, dtype=jnp.complex128, M=2, slater_init_fun=nrm, slater_apply_symmetries=reflections(L),
                            n_determinants=2, spin_symmetry_by_structure=False, apply_fast_update=fast)
    if name == "slaterqgps":
        return m.SlaterqGPS(hi, dtype=jnp.complex128, M=2, slater_init_fun=nrm,
                            spin_symmetry_by_structure=False, apply_fast_update=fast)
    if name in ("backflow", "backflow-unres"):
        res = name == "backflow" and hi._n_elec[0] == hi._n_elec[1]
        cols = hi._n_elec[0] if res else N
        corr = m.qGPS(hi, 2 * L * cols, dtype=jnp.complex128, init_fun=nrm,
                      out_transformation=bf_out(L, cols), apply_fast_update=fast)
        return m.Backflow(hi, corr, spin_symmetry_by_structure=res, apply_fast_update=fast)
    if name in ("cpd", "cpd-unres", "cpd-gen"):
        res = name == "cpd" and hi._n_elec[0] == hi._n_elec[1]
        return m.CPDBackflow(hi, 2, dtype=jnp.complex128, init_fun=nrm, restricted=res,
                             fixed_magnetization=name != "cpd-gen", apply_fast_update=fast)
    if name == "jastrow-slater":
        return m.SlaterJastrow(hi, dtype=jnp.complex128, slater_init_fun=nrm,
                               spin_symmetry_by_structure=False, apply_fast_update=False)
    raise KeyError(name)


def reseed(params, seed, scale):
    """Generic parameters bounded away from zero (updates divide by them)."""
    import jax
    rs = np.random.RandomState(seed)

    def f(x):
        x = np.asarray(x)
        r = 0.5 + rs.rand(*x.shape)
        if np.iscomplexobj(x):
            v = r * np.exp(1j * scale * np.pi * rs.randn(*x.shape))
        else:
            v = r * rs.choice([-1.0, 1.0], size=x.shape)
        return jax.numpy.asarray(v.astype(x.dtype))
    return jax.tree_util.tree_map(f, params)
