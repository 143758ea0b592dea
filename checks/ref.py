"""Serial reference evaluations in numpy, shared by several checks.

Amplitudes come from the model under test evaluated one whole batch at a time on a single
process; everything built on top (local energies, averages, covariances, solves) is
independent of GPSKet and of any sharding or chunking.
"""
from __future__ import annotations

import numpy as np


def seeded_like(tree, seed):
    import jax
    rs = np.random.RandomState(seed)

    def f(x):
        x = np.asarray(x)
        d = rs.randn(*x.shape)
        if np.iscomplexobj(x):
            d = d + 1j * rs.randn(*x.shape)
        return jax.numpy.asarray(d.astype(x.dtype))
    return jax.tree_util.tree_map(f, tree)


_fn = {}


def _jitted(name, build):
    if name not in _fn:
        _fn[name] = build()
    return _fn[name]


def _build_jac():
    import jax
    import jax.numpy as jnp
    from functools import partial
    from jax.flatten_util import ravel_pytree

    @partial(jax.jit, static_argnums=(0, 4))
    def jac_fn(apply, p, mstate, X, mode):
        if mode == "holomorphic":
            flat, un = ravel_pytree(p)
            f = lambda v: apply({"params": un(v), **mstate}, X).astype(complex)
            return jax.jacfwd(f, holomorphic=True)(flat)
        leaves, td = jax.tree_util.tree_flatten(p)
        if any(jnp.iscomplexobj(x) for x in leaves):
            re = [x.real for x in leaves]
            im = [x.imag for x in leaves if jnp.iscomplexobj(x)]
            flat, un = ravel_pytree((re, im))

            def f(v):
                r, i = un(v)
                i = list(i)
                l2 = [a + 1j * i.pop(0) if jnp.iscomplexobj(x) else a for a, x in zip(r, leaves)]
                y = apply({"params": jax.tree_util.tree_unflatten(td, l2), **mstate}, X)
                return jnp.stack([y.real, y.imag if jnp.iscomplexobj(y) else 0 * y])
        else:
            flat, un = ravel_pytree(p)

            def f(v):
                y = apply({"params": un(v), **mstate}, X)
                return jnp.stack([y.real, y.imag if jnp.iscomplexobj(y) else 0 * y.real])
        return jax.jacfwd(f)(flat)
    return jac_fn


def jac(apply, p, X, mode, mstate=None):
    """Log-derivatives, one row per configuration.

    real: d Re log psi / d theta;  complex: complex rows, columns d/d(Re theta) and (for
    complex parameters, leaf by leaf as in tree_to_real) d/d(Im theta);  holomorphic.
    """
    import jax
    import jax.numpy as jnp
    f = _jitted("jac", _build_jac)
    p = jax.tree_util.tree_map(jnp.asarray, p)
    J = np.asarray(f(apply, p, mstate or {}, jnp.asarray(X), mode))
    if mode == "holomorphic":
        return J
    if mode == "real":
        return J[0]
    return J[0] + 1j * J[1]


def apply_real(S, v, mode, p):
    """S applied to the flat vector v (complex entries split for real modes)."""
    if mode == "holomorphic" or not np.iscomplexobj(v):
        return S @ v
    x = S @ np.concatenate([v.real, v.imag])
    k = len(v)
    return x[:k] + 1j * x[k:]


class Ref:
    def __init__(self, hi, ha, apply, H=None, mstate=None):
        self.hi = hi
        self.apply = apply
        self.mstate = mstate or {}
        self.H = np.asarray(ha.to_dense()) if H is None else H
        self.states = np.asarray(hi.all_states())
        self.index = {tuple(np.round(s, 6).tolist()): i for i, s in enumerate(self.states.astype(float))}

    def ids(self, X):
        return np.array([self.index[tuple(np.round(x, 6).tolist())] for x in np.asarray(X, dtype=float)])

    def logpsi(self, p):
        import jax.numpy as jnp
        import jax
        pj = jax.tree_util.tree_map(jnp.asarray, p)
        f = _jitted("apply", lambda: jax.jit(
            lambda apply, p, ms, x: apply({"params": p, **ms}, x), static_argnums=0))
        return np.asarray(f(self.apply, pj, self.mstate, jnp.asarray(self.states))).astype(complex)

    def eloc(self, p, X):
        lp = self.logpsi(p)
        i = self.ids(X)
        out = np.empty(len(i), dtype=complex)
        for k, a in enumerate(i):
            nz = np.nonzero(self.H[a])[0]
            out[k] = np.sum(self.H[a, nz] * np.exp(lp[nz] - lp[a]))
        return out

    def energy(self, p, X, W):
        """Weighted mean, variance and gradient (netket's convention)."""
        import jax
        E = self.eloc(p, X)
        m = np.sum(W * E)
        v = np.sum(W * np.abs(E - m) ** 2)
        cplx = any(np.iscomplexobj(x) for x in jax.tree_util.tree_leaves(p))
        if cplx:
            O = jac(self.apply, p, X, "holomorphic", self.mstate)
            g = np.conj(O).T @ (W * (E - m))
        else:
            O = jac(self.apply, p, X, "complex", self.mstate)
            g = 2 * np.real(np.conj(O).T @ (W * (E - m)))
        return m, v, g

    def qgt(self, p, X, W, mode):
        O = jac(self.apply, p, X, mode, self.mstate)
        dO = O - np.sum(W[:, None] * O, axis=0)
        S = np.conj(dO).T @ (W[:, None] * dO)
        return S if mode == "holomorphic" else S.real
