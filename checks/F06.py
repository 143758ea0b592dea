"""F06: systems, models and initial states the training programs build from a configuration.

The set-up part of the programs (configuration, system, model, sampler, variational state) runs on
every simulated rank; orbital signs and random numbers differ between the ranks, as on different
hosts.  The Hamiltonian is reconstructed from local energies of a table of amplitudes and compared
with an independent matrix; a second incarnation sets up again from the stored configuration.
"""
from __future__ import annotations

import contextlib
import io
import itertools
import os

import numpy as np

from . import chem
from . import common as C
from . import fermi as F
from . import E02
from simlib import core, disk as D
from simlib.runner import Result

PROPERTY = "F06"
RULE = "nontrivial: several ranks, or a second set-up from the stored configuration; keyed by configuration and results"
REAL = ["argps.configs, systems, models, samplers, utils", "cpd_backflow.configs, systems, models, utils",
        "GPSKet operators, models and samplers", "netket MCState and local estimators", "pyscf (memoised solvers)"]
STUB = ["MPI transport (simulated collectives)", "file system (interception points over a scratch directory)",
        "orbital signs chosen per rank and incarnation", "minimal basis, small lattices and molecules"]
ASSUMPTIONS = ["matrices are compared up to signs of the basis functions",
               "chains whose length is a multiple of four are antiperiodic when closed (closed shell)"]
BUDGET = {"quick": (40, 8, 70), "thorough": (600, 16, 1500)}
SPIN_MODELS = ["GPS", "ARGPS", "ARFilterGPS", "MaskedGPS", "FilterGPS", "MaskedFilterGPS"]
SYMS = ["none", "translations", "point-symmetries", "spin-flip", "all", "translations,spin-flip",
        "point-symmetries,spin-flip"]


def closed(shape, pbc, n):
    """Whether n lowest levels of the lattice are separated from the others (pyscf's restricted solver only
    finds a solution for such closed shells)."""
    N = int(np.prod(shape))
    bonds, t = ring(N, pbc) if len(shape) == 1 else grid(shape, pbc)
    h = np.zeros((N, N))
    for (i, j), tt in zip(bonds, t):
        h[i, j] = h[j, i] = -tt
    e = np.linalg.eigvalsh(h)
    return bool(n == N or e[n] - e[n - 1] > 1e-6)


def gen_block(rng, b):
    return {"kind": ["spin", "hub", "cpd", "mol", "spin", "cpd2", "cmol"][b % 7], "n": [2, 1, 3, 2, 2][b % 5],
            "model": SPIN_MODELS[(b // 3) % 6]}


def gen_case(blk, rng, i):
    blk = {**blk, "dtype": rng.choice(["real", "complex"])}
    kind = blk["kind"]
    if kind == "spin":
        blk["shape"] = rng.choice([[4], [6], [2, 2], [4], [3, 2]])
        blk["pbc"] = len(blk["shape"]) == 1 and rng.random() < 0.7
        blk["syms"] = rng.choice(SYMS)
        if blk["shape"] != [2, 2] and not blk["pbc"]:
            blk["syms"] = rng.choice(["none", "spin-flip"])
            if blk["model"] == "FilterGPS":
                blk["model"] = "GPS"
    elif kind == "hub":
        blk["model"] = rng.choice(["ARFilterGPS", "ARGPS"])
        blk["Lx"] = rng.choice([3, 4, 4, 5])
        blk["pbc"] = rng.random() < 0.6
    elif kind == "mol":
        blk["geo"] = rng.choice(["chain", "chain", "sheet"])
        blk["basis"] = rng.choice(["canonical", "local"])
        blk["atoms"] = rng.choice([2, 4]) if blk["geo"] == "chain" else (6 if blk["basis"] == "canonical" else 4)
        blk["dist"] = rng.choice([1.4, 1.8, 2.5])
        blk["model"] = rng.choice(["ARGPS", "ARFilterGPS"])
    elif kind == "cmol":
        blk["geo"] = rng.choice(["sheet2", "sheet2", "LiH", "H4", "H4", "H4t", "sheet6"])
        blk["basis"] = rng.choice(["canonical", "local-boys", "local-pipek-mezey"])
        blk["ne"] = [3, 1] if blk["geo"] == "H4t" else None
        blk["cut"] = rng.choice([None, 2]) if blk["ne"] is None else None
        blk["restricted"] = blk["ne"] is None and rng.random() < 0.4
        blk["fixed"] = blk["restricted"] or rng.random() < 0.6
        blk["dist"] = rng.choice([0.8, 1.0, 1.3])
    else:
        blk["shape"] = rng.choice([[3], [4], [5]]) if kind == "cpd" else rng.choice([[3, 2], [2, 3], [4, 2], [2, 2], [3, 3],
                                                                                                [3, 4], [3, 4], [4, 3], [2, 4]])
        if kind == "cpd":
            blk["pbc"] = rng.random() < 0.6
        else:
            blk["pbc"] = rng.choice(["PBC", "PBC-PBC", "PBC-APBC", "PBC-APBC", "PBC-OBC"])
            if i % 4 == 2:  # a shape on which rows and columns cannot be mistaken for each other
                blk["shape"], blk["pbc"] = [3, 4], "PBC-APBC"
        N = int(np.prod(blk["shape"]))
        blk["ne"] = None if N <= 4 and rng.random() < 0.5 else rng.choice([[1, 1], [2, 1]] if N < 8 else [[1, 1]])
        blk["restricted"] = ((blk["ne"] is None or blk["ne"][0] == blk["ne"][1]) and rng.random() < 0.4
                             and closed(blk["shape"], blk["pbc"], (blk["ne"] or [N // 2])[0]))
        blk["fixed"] = blk["restricted"] or rng.random() < 0.6
    return {**blk, **C.sched_fields(rng), "J1": rng.choice([1.0, -0.6, 2.0]), "J2": rng.choice([0.0, 0.0, 0.5]),
            "rule": rng.random() < 0.5, "t": rng.choice([1.0, 0.6, -0.8]), "U": rng.choice([0.0, 2.0, 4.0, 8.0]),
            "seed": rng.choice([None, None, rng.randrange(10**6)]), "gauge": rng.randrange(4),
            **({"U": rng.choice([2.0, 4.0, 8.0]), "t": rng.choice([1.0, 0.6])} if blk["kind"].startswith("cpd") else {}),
            "again": rng.random() < 0.5, "entropy": rng.randrange(10**6), "state": i % 8 == 3,
            "M": rng.choice([1, 1, 2]), "det": i % 4 == 1 or kind == "cmol"}


def shrink(case):
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}
    for k, v in (("again", False), ("J2", 0.0), ("rule", False), ("U", 0.0), ("t", 1.0), ("seed", 3), ("state", False), ("M", 1), ("det", False)):
        if case[k] != v:
            yield {**case, k: v}


# -- the configuration, as a user writes it ---------------------------------------------

def make_config(case):
    k = case["kind"]
    if k == "spin":
        from argps.configs.heisenberg2d import get_config
        c = get_config(case["model"])
        sh = case["shape"]
        c.system.Lx = sh[0]
        if len(sh) > 1:
            c.system.Ly = sh[1]
        else:
            del c.system["Ly"]
        c.system.J1, c.system.pbc, c.system.sign_rule = case["J1"], case["pbc"], case["rule"]
        if case["J2"]:
            c.system.J2 = case["J2"]
        c.model.symmetries = case["syms"]
        if "sweep_size" not in c.sampler and "n_sweeps" in c.sampler:
            c.sampler.n_chains_per_rank = 2
            c.sampler.d_max = 1
    elif k == "hub":
        from argps.configs.hubbard1d import get_config
        c = get_config()
        c.system.Lx, c.system.t, c.system.U, c.system.pbc = case["Lx"], case["t"], case["U"], case["pbc"]
        c.model_name = case["model"]
    elif k == "mol":
        from argps.configs.hydrogen import get_config
        c = get_config(",".join([case["geo"], case["basis"], case["dtype"]]))
        c.system.n_atoms, c.system.distance, c.system.basis_set = case["atoms"], case["dist"], "sto-3g"
        c.model_name = case["model"]
    elif k == "cmol":
        from ml_collections import ConfigDict
        if case["geo"].startswith("sheet"):
            from cpd_backflow.configs.hsheet import get_config
            c = get_config()
            c.system.n_atoms, c.system.distance = int(case["geo"][-1]), case["dist"]
        else:
            from cpd_backflow.configs.h2o import get_config
            c = get_config()
            c.system.molecule = backflow_molecule(case)
            if case["ne"]:
                c.system.n_elec = tuple(case["ne"])
        c.system.basis, c.system.basis_set = case["basis"], "sto-3g"
        if case["cut"]:
            c.model.exchange_cutoff = case["cut"]
        c.model.restricted, c.model.fixed_magnetization = case["restricted"], case["fixed"]
        c.sampler.n_chains_per_rank, c.sampler.n_sweeps = 2, 2
    else:
        from cpd_backflow.configs.fermi_hubbard import get_config
        c = get_config()
        sh = case["shape"]
        c.system.Lx, c.system.t, c.system.U = sh[0], case["t"], case["U"]
        if len(sh) > 1:
            c.system.Ly = sh[1]
        else:
            del c.system["Ly"]
        with c.ignore_type():
            c.system.pbc = case["pbc"]
        if case["ne"] is None:
            del c.system["n_elec"]
        else:
            c.system.n_elec = tuple(case["ne"])
        c.model.restricted, c.model.fixed_magnetization = case["restricted"], case["fixed"]
        c.sampler.n_chains_per_rank, c.sampler.n_sweeps = 2, 2
    c.model.M = case["M"]
    if k in ("cpd", "cpd2", "cmol"):
        c.model.sigma = 1e-8      # the state starts from the reference determinant
    c.model.dtype = case["dtype"]
    c.variational_state.n_samples = 4 * case["n"]
    if "n_discard_per_chain" in c.variational_state:
        with c.ignore_type():
            c.variational_state.n_discard_per_chain = 1
    if case["seed"] is not None:
        c.variational_state.seed = case["seed"]
    return c


# -- independent reference ------------------------------------------------------------

def ring(L, pbc):
    """Bonds and relative hoppings of a chain."""
    bonds = [(i, i + 1) for i in range(L - 1)]
    t = [1.0] * (L - 1)
    if pbc and L > 2:
        bonds.append((0, L - 1))
        t.append(-1.0 if L % 4 == 0 else 1.0)
    return bonds, t


def grid(shape, pbc):
    """Bonds of a grid, x the slow index; antiperiodic: minus across the boundary in x."""
    Lx, Ly = shape
    d = {}
    for x in range(Lx):
        for y in range(Ly):
            for dx, dy in ((1, 0), (0, 1)):
                u, v = x + dx, y + dy
                s = 1.0
                if u == Lx:
                    s = -1.0 if pbc == "PBC-APBC" else 1.0
                    u = 0
                if v == Ly:
                    if pbc == "PBC-OBC":
                        continue
                    v = 0
                a, b = x * Ly + y, u * Ly + v
                # a direction of length two has one bond between its sites
                d[min(a, b), max(a, b)] = s
    return list(d), list(d.values())


def reference(case):
    k = case["kind"]
    if k == "spin":
        return E02.heisenberg({"shape": case["shape"], "sz": 0, "J1": case["J1"], "J2": case["J2"],
                               "rule": [case["rule"], False], "pbc": case["pbc"]})
    if k == "hub":
        L = case["Lx"]
        ne = (L // 2, L // 2)
        bonds, t = ring(L, case["pbc"])
    else:
        sh = case["shape"]
        L = int(np.prod(sh))
        ne = tuple(case["ne"] or (L // 2, L // 2))
        bonds, t = ring(L, case["pbc"]) if len(sh) == 1 else grid(sh, case["pbc"])
    return F.hubbard_matrix(L, ne, bonds, case["t"] * np.array(t), case["U"])


def table_model():
    def build():
        import jax
        import jax.numpy as jnp
        from flax import linen as nn

        class Table(nn.Module):
            codes: tuple
            base: int
            shift: int
            scale: int
            apply_fast_update: bool = False

            @nn.compact
            def __call__(self, x):
                t = self.param("table", jax.nn.initializers.zeros, (len(self.codes),), jnp.float64)
                occ = ((x + self.shift) // self.scale).astype(jnp.int32)
                w = jnp.array([self.base**i for i in range(x.shape[-1])], dtype=jnp.int32)
                i = jnp.searchsorted(jnp.array(self.codes, dtype=jnp.int32), jnp.sum(occ * w, axis=-1))
                return t[jnp.clip(i, 0, len(self.codes) - 1)]
        return Table
    return C.memo("F06table", build)


def matrix(ha, states, spin):
    """The operator's matrix on the given configurations, from local energies."""
    import jax.numpy as jnp
    import netket as nk
    L = len(states[0])
    base, shift, scale = (2, 1, 2) if spin else (4, 0, 1)
    st = np.array(states)
    code = np.sum(((st + shift) // scale) * base ** np.arange(L), axis=1)
    order = np.argsort(code)
    ma = table_model()(tuple(code[order].tolist()), base, shift, scale)
    if spin:
        sa = nk.sampler.MetropolisLocal(ha.hilbert, n_chains_per_rank=1)
    else:
        from GPSKet.sampler import MetropolisHopping
        sa = MetropolisHopping(ha.hilbert, n_chains_per_rank=1)
    vs = nk.vqs.MCState(sa, ma, n_samples=sa.n_chains, n_discard_per_chain=0, seed=1, sampler_seed=1)
    vs._samples = jnp.asarray(st.astype(float if spin else np.uint8)).reshape(1, -1, L)
    D_ = len(states)
    P = np.ones((D_, D_)) + 2 * np.eye(D_)
    cols = []
    for k in range(D_):
        vs.parameters = {"table": jnp.asarray(np.log(P[order, k]))}
        vs._samples = jnp.asarray(st.astype(float if spin else np.uint8)).reshape(1, -1, L)
        cols.append(np.real(np.array(vs.local_estimators(ha))).reshape(-1) * P[:, k])
    return np.array(cols).T @ np.linalg.inv(P)


def same_up_to_signs(A, B, tol=1e-7):
    if A.shape != B.shape:
        return f"shape {A.shape} instead of {B.shape}"
    s = max(1.0, np.max(np.abs(B)))
    if not np.max(np.abs(np.diag(A) - np.diag(B))) < tol * s:
        i = int(np.argmax(np.abs(np.diag(A) - np.diag(B))))
        return f"diagonal element {i}: {A[i, i]} instead of {B[i, i]}"
    if not np.max(np.abs(np.abs(A) - np.abs(B))) < tol * s:
        i, j = np.unravel_index(np.argmax(np.abs(np.abs(A) - np.abs(B))), A.shape)
        return f"element {i},{j}: {A[i, j]} instead of {B[i, j]} (up to a sign)"
    a, b = np.linalg.eigvalsh((A + A.T) / 2), np.linalg.eigvalsh(B)
    if not np.max(np.abs(a - b)) < tol * s:
        return f"lowest eigenvalues {a[:3]} instead of {b[:3]}"
    return None


def same_integrals(h1, h2, ref):
    for s in itertools.product([1.0, -1.0], repeat=ref["norb"] - 1):
        s = np.array((1.0,) + s)
        if np.max(np.abs(h1 * s[:, None] * s - ref["h1"])) < 1e-6 and \
                np.max(np.abs(np.einsum("ijkl,i,j,k,l->ijkl", h2, s, s, s, s) - ref["h2"])) < 1e-6:
            return True
    return False


def occupied(phi, case):
    """The orbitals of the two spins, or what is wrong with their layout."""
    L = int(np.prod(case["shape"]))
    na, nb = case["ne"] or (L // 2, L // 2)
    if case["restricted"]:
        return (phi, phi) if phi.shape == (L, na) else f"shape {phi.shape}"
    if case["fixed"]:
        return (phi[:, :na], phi[:, na:]) if phi.shape == (L, na + nb) else f"shape {phi.shape}"
    if phi.shape != (2 * L, na + nb):
        return f"shape {phi.shape}"
    if np.any(phi[:L, na:]) or np.any(phi[L:, :na]):
        return "spins are mixed"
    return phi[:L, :na], phi[L:, na:]


def energy(H, states, a, b):
    psi = np.array([np.linalg.det(a[[i for i, v in enumerate(s) if v & 1]])
                    * np.linalg.det(b[[i for i, v in enumerate(s) if v & 2]]) for s in states])
    return psi @ H @ psi / (psi @ psi)


def check_orbitals(phi, case, H, states):
    """Orthonormal, and the energy of their determinant is stationary."""
    ab = occupied(phi, case)
    if isinstance(ab, str):
        return ab
    a, b = ab
    for c, s in ((a, "up"), (b, "down")):
        if not np.max(np.abs(c.T @ c - np.eye(c.shape[1]))) < 1e-6:
            return f"the {s} orbitals are not orthonormal"
    rs = np.random.RandomState(case["entropy"])
    h = 1e-4
    for spin in ("both",) if case["restricted"] else ("up", "down"):
        for _ in range(3):
            X = rs.randn(len(a), len(a))
            X = (X - X.T) / np.linalg.norm(X)
            e = [energy(H, states, a + d * X @ a if spin != "down" else a, b + d * X @ b if spin != "up" else b)
                 for d in (h, -h)]
            if not abs(e[0] - e[1]) / (2 * h) < 2e-3 * max(1.0, case["U"]):
                return (f"not a mean-field solution: rotating the orbitals ({spin}) changes the energy with slope "
                        f"{(e[0] - e[1]) / (2 * h):.3g}")
    return None


def symmetries(case):
    """Site permutations under which the configured model has to be invariant."""
    g = case["syms"].split(",")
    both = g[0] in ("all", "automorphisms")
    tr = both or "translations" in g or case["model"] == "FilterGPS"
    pt = both or "point-symmetries" in g
    sh = case["shape"]
    perms = []
    if len(sh) == 1:
        L = sh[0]
        if tr:
            perms.append([(i + 1) % L for i in range(L)])
        if pt:
            perms.append([(-i) % L for i in range(L)])
    elif pt and sh == [2, 2]:
        perms += [[2, 0, 3, 1], [0, 2, 1, 3]]
    flip = both or "spin-flip" in g
    if case["model"] == "FilterGPS":     # translations only
        perms, flip = (perms[:1] if len(sh) == 1 else []), False
    return perms, flip


def program(case, wd, first, got):
    k = case["kind"]

    def prog(r):
        import jax.numpy as jnp
        import netket as nk
        from ml_collections import ConfigDict
        back = k in ("cpd", "cpd2", "cmol")
        if back:
            from cpd_backflow.configs.common import resolve
            from cpd_backflow.systems import get_system
            from cpd_backflow.utils import save_config, read_config
            from cpd_backflow import models
        else:
            from argps.configs.common import resolve
            from argps.systems import get_system
            from argps.utils import save_config, read_config
            from argps import models
        if first:
            config = make_config(case)
        else:
            config = ConfigDict(read_config(wd))
        config = resolve(config)
        if r == 0:
            save_config(wd, config)
        ha = get_system(config, wd) if k == "cmol" else get_system(config)
        hi = ha.hilbert
        o = {"rank": r, "size": hi.size, "seed": config.variational_state.seed}
        if k in ("mol", "cmol"):
            o["ne"] = tuple(int(x) for x in hi._n_elec)
            o["h1"], o["h2"] = np.array(ha.h_mat), np.array(ha.eri_mat)
        else:
            if k != "spin":
                o["ne"] = tuple(int(x) for x in hi._n_elec)
            o["H"] = matrix(ha, reference(case)[0], k == "spin")
        if k.startswith("cpd"):
            o["phi"] = np.array(models.get_hf_orbitals(ha, restricted=case["restricted"],
                                                       fixed_magnetization=case["fixed"]))
        if back and case["det"]:
            import jax
            ma = models.get_model(config, hi, ha, wd)
            st = np.array(F.sector(hi.size, o["ne"])).astype(np.uint8)
            va = ma.init(jax.random.PRNGKey(case["entropy"]), jnp.asarray(st[:1]))
            o["params0"] = C.ravel(va["params"])
            if r == case["n"] - 1:
                o["psi"] = np.exp(np.array(ma.apply(va, jnp.asarray(st))))
        if case["state"]:
            if back:
                from GPSKet.sampler import MetropolisHopping
                ma = models.get_model(config, hi, ha, wd)
                sa = MetropolisHopping(hi, **config.sampler)
            else:
                from argps.samplers import get_sampler
                g = ha.graph if hasattr(ha, "graph") else None
                ma = models.get_model(config, hi, g)
                sa = get_sampler(config, hi, g)
            vs = nk.vqs.MCState(sa, ma, **config.variational_state)
            o["params"] = C.ravel(vs.parameters)
            o["x"] = np.array(vs.samples).reshape(-1, hi.size)
            if k not in ("hub", "mol"):
                if back:
                    st = np.array(F.sector(hi.size, o["ne"])).astype(np.uint8)
                else:
                    st = np.array(reference(case)[0]).astype(float)
                # local energies of the samples, and all amplitudes
                o["loc"] = np.array(vs.local_estimators(ha)).reshape(-1)
                o["amp"] = np.array(vs.log_value(jnp.asarray(st)))
            if k == "spin" and r == 0:
                st = np.array(reference(case)[0]).astype(float)
                vs.parameters = C.scaled(vs.parameters, 0.3, 5)
                o["log"] = np.array(vs.log_value(jnp.asarray(st)))
        got.append(o)
        return True
    return prog


def judge(case, got, where, res):
    k = case["kind"]
    o0 = got[0]
    for o in got[1:]:
        for key in o0:
            if key in ("rank", "x", "log", "psi", "loc"):
                continue
            a, b = np.asarray(o[key]), np.asarray(o0[key])
            if a.shape != b.shape or not np.array_equal(a, b) and (key != "H" or C.differs(a, b, 1e-9)):
                return res.bad("ranks-differ", where + f"{key} of rank {o['rank']} differs from rank {o0['rank']}")
    if case["seed"] is not None and o0["seed"] != case["seed"]:
        return res.bad("seed", where + f"seed {o0['seed']} instead of {case['seed']}")
    if k in ("mol", "cmol"):
        sysc = {"molecule": molecule(case) if k == "mol" else backflow_molecule(case), "basis_set": "sto-3g",
                "basis": case["basis"], "symmetry": True, "unit": "Bohr" if k == "mol" else "angstrom"}
        if case.get("ne"):
            sysc["n_elec"] = tuple(case["ne"])
        ref = chem.molecule_reference(sysc, 0)
        if (o0["size"], o0["ne"]) != (ref["norb"], ref["nelec"]):
            return res.bad("system", where + f"{o0['size']} orbitals and {o0['ne']} electrons")
        if not same_integrals(o0["h1"], o0["h2"], ref):
            return res.bad("system", where + "the integrals are not those of the molecule in this basis")
        res.probe("integrals compared")
    else:
        st, H = reference(case)
        bad = same_up_to_signs(o0["H"], H)
        if bad:
            return res.bad("system", where + f"Hamiltonian on {st[:2]}..: {bad}")
        res.probe("matrix compared " + k)
    if "phi" in o0:
        bad = check_orbitals(o0["phi"], case, o0["H"], reference(case)[0])
        if bad:
            return res.bad("orbitals", where + bad)
        res.probe("mean-field orbitals")
    if "psi" in got[-1]:
        psi = np.array(got[-1]["psi"])
        if k == "cmol":
            Href = F.ab_initio_matrix(ref["norb"], ref["nelec"], ref["h1"], ref["h2"])
            Hown = F.ab_initio_matrix(o0["size"], o0["ne"], o0["h1"], o0["h2"])
            st, Href = (Href if isinstance(Href, tuple) else (F.sector(ref["norb"], ref["nelec"]), Href))
            Hown = Hown[1] if isinstance(Hown, tuple) else Hown
            want = energy(Href, st, ref["alpha"], ref["beta"])
        else:
            st, Hown = reference(case)
            Hown = o0["H"]
            want = energy(Hown, st, *occupied(o0["phi"], case))
        e = float(np.real(psi.conj() @ Hown @ psi / (psi.conj() @ psi)))
        if not abs(e - want) < 1e-5 * max(1.0, abs(want)):
            return res.bad("start", where + f"the initial state has energy {e}, the reference determinant {want}")
        res.probe("initial state " + k)
    if "x" in o0:
        for o in got:
            for x in o["x"]:
                if k == "spin":
                    ok = np.all(np.abs(x) == 1) and np.sum(x) == 0
                else:
                    x = x.astype(int)
                    ok = (int(np.sum(x & 1)), int(np.sum(x >> 1))) == o["ne"] and np.all((x >= 0) & (x < 4))
                if not ok:
                    return res.bad("sector", where + f"rank {o['rank']}: sample {x.tolist()} outside of the sector")
        res.probe("samples in the sector " + k)
    for o in got:
        if "loc" not in o:
            continue
        if k == "cmol":
            st, H = F.ab_initio_matrix(o["size"], o["ne"], o["h1"], o["h2"])
        else:
            st, H = reference(case)[0], o["H"]
        a = o["amp"] - np.max(o["amp"].real)
        psi = np.exp(a)
        idx = {tuple(int(v) for v in s_): i for i, s_ in enumerate(np.array(st).tolist())}
        if len(o["loc"]) != len(o["x"]):
            return res.bad("energy", where + f"{len(o['loc'])} local energies for {len(o['x'])} samples")
        for x, e in zip(o["x"], o["loc"]):
            i = idx[tuple(int(v) for v in x)]
            if abs(psi[i]) < 1e-6:
                continue        # only noise
            want = H[i] @ psi / psi[i]
            if not abs(e - want) < 1e-6 * max(1.0, abs(want)):
                return res.bad("energy", where + f"local energy {e} of {x.tolist()} instead of {want}")
            res.probe("local energies " + k)
    if "log" in o0:
        perms, flip = symmetries(case)
        st = np.array(reference(case)[0])
        idx = {tuple(s): i for i, s in enumerate(st.tolist())}
        amp = np.exp(o0["log"].real)
        for p in perms + ([None] if flip else []):
            q = [idx[tuple((-s if p is None else s[p]).tolist())] for s in st]
            if not np.max(np.abs(amp[q] - amp)) < 1e-6 * np.max(amp):
                return res.bad("symmetry", where + f"{case['model']} with symmetries {case['syms']}: amplitudes change "
                                                   f"under {'spin flip' if p is None else p}")
            res.probe("symmetry")
    return None


def backflow_molecule(case):
    d = case["dist"]
    return {"sheet2": [("H", (0.0, y * d, 0.0)) for y in range(2)],
            "sheet6": [("H", (x * d, y * d, 0.0)) for x in range(2) for y in range(3)],
            "LiH": [("Li", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, 2 * d))],
            "H4": [("H", (0.1, 0.0, 0.0)), ("H", (0.0, 1.1 * d, 0.0)), ("H", (0.9, 0.0, 0.1)),
                   ("H", (1.2, d, 0.3))],
            "H4t": [("H", (0.1, 0.0, 0.0)), ("H", (0.0, 1.1 * d, 0.0)), ("H", (0.9, 0.0, 0.1)),
                    ("H", (1.2, d, 0.3))]}[case["geo"]]


def molecule(case):
    d, n = case["dist"], case["atoms"]
    if case["geo"] == "chain":
        return [("H", (i * d, 0.0, 0.0)) for i in range(n)]
    return [("H", (x * d, y * d, 0.0)) for x in range(2) for y in range(n // 2)]


def run_case(case):
    res = Result()
    chem.install()
    chem.FORCE_BASIS = None
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "argps.systems", "argps.models", "argps.samplers", "argps.utils",
                                 "argps.configs.common", "argps.configs.heisenberg2d", "argps.configs.hubbard1d",
                                 "argps.configs.hydrogen", "cpd_backflow.systems", "cpd_backflow.models",
                                 "cpd_backflow.utils", "cpd_backflow.configs.common",
                                 "cpd_backflow.configs.fermi_hubbard", "cpd_backflow.configs.hsheet",
                                 "cpd_backflow.configs.h2o"), key="setup")
    D.install()
    d = D.Disk()
    d.mkroot()
    wd = os.path.join(d.root, "work")
    params = []
    try:
        chem.RANKED = True
        for k in range(2 if case["again"] else 1):
            chem.GAUGE = case["gauge"] + k
            np.random.seed(case["entropy"] + k)
            d.next_run([])
            got = []
            with D.use(d), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                sim, out = C.run_job(case, n, program(case, wd, k == 0, got), res, world=w, salt=k)
            if res.violation:
                return res
            got.sort(key=lambda o: o["rank"])
            where = "set-up from the stored configuration: " if k else ""
            judge(case, got, where, res)
            if res.violation:
                return res
            if "params" in got[0]:
                params.append((got[0]["seed"], got[0]["params"]))
            res.note(C.h(*[got[0][x] for x in ("H", "h1") if x in got[0]]))
    finally:
        chem.GAUGE = 0
        chem.RANKED = False
        d.remove()
    if len(params) == 2:
        if params[0][0] != params[1][0]:
            return res.bad("seed", f"seed {params[1][0]} from the stored configuration, {params[0][0]} before")
        if case["kind"] not in ("cpd", "cpd2", "cmol") and not np.array_equal(params[0][1], params[1][1]):
            return res.bad("restart", "other initial parameters from the stored configuration")
    if n > 1 or case["again"]:
        res.key = res.digest + repr(sorted((k, repr(v)) for k, v in case.items() if k not in ("sched", "policy")))
    return res
