"""pyscf in the simulated jobs: small basis, cached solvers, orbital gauge.

The quantum-chemistry library is trusted.  Its expensive calls are memoised on their exact
inputs; the sign of each molecular orbital (arbitrary, and different between machines,
library versions and thread counts) is chosen by the harness per simulated process.
"""
from __future__ import annotations

import contextlib
import hashlib

import numpy as np

GAUGE = 0         # gauge of the processes that currently run
FORCE_BASIS = None
TRUNCATE = None   # keep only this many atoms of a geometry (large benchmark systems)
RANKED = False    # orbital signs also differ between the ranks of a job
_memo = {}
_on = False


def _h(*xs):
    m = hashlib.sha256()
    for x in xs:
        if isinstance(x, np.ndarray):
            m.update(str((x.shape, str(x.dtype))).encode())
            m.update(np.ascontiguousarray(x).tobytes())
        else:
            m.update(repr(x).encode())
    return m.hexdigest()


def signs(n, g):
    if g == 0:
        return np.ones(n)
    s = np.random.RandomState(77 * g).choice([-1.0, 1.0], size=n)
    s[g % n] = -1.0
    return s


@contextlib.contextmanager
def quiet():
    """The library's own file accesses (basis sets) are not operations of the simulated job: they
    happen at its first use in a worker process only."""
    from simlib import disk
    saved, disk.ACTIVE = disk.ACTIVE, None
    try:
        yield
    finally:
        disk.ACTIVE = saved


def install():
    global _on
    if _on:
        return
    _on = True
    from pyscf import ci, fci, gto, lo, scf
    from pyscf.lo import boys as lboys  # noqa: F401

    # this pyscf uses numpy.array(copy=False), which numpy 2 rejects
    ci.cisd._cp = lambda a: np.asarray(a, order="C")

    build0 = gto.Mole.build

    def build(self, *a, **k):
        if FORCE_BASIS is not None and (k.get("atom") is not None or self.atom):
            k["basis"] = FORCE_BASIS
        if TRUNCATE is not None and isinstance(k.get("atom"), list):
            k["atom"] = k["atom"][:TRUNCATE]
        k["verbose"] = 0
        k["dump_input"] = False
        k["parse_arg"] = False
        k["max_memory"] = 10**6      # the worker's size must not change what the library keeps
        with quiet():
            return build0(self, *a, **k)

    gto.Mole.build = build

    def molkey(mol):
        return _h(mol._atom, mol._basis, mol.charge, mol.spin, mol.nelectron)

    scf0 = scf.hf.SCF.scf

    def gauge():
        if not RANKED:
            return GAUGE
        from simlib import core
        s = core.CURRENT
        return GAUGE + 5 * (s.current if s is not None and s.current is not None else 0)

    def flip(mf):
        # model Hamiltonians: other signs on other hosts
        if RANKED and not mf.mol._atom and isinstance(mf.mo_coeff, np.ndarray):
            mf.mo_coeff = np.array(mf.mo_coeff) * signs(mf.mo_coeff.shape[-1], gauge())

    from pyscf.soscf import newton_ah
    new0 = newton_ah._CIAH_SOSCF.kernel

    def newton(self, *a, **k):
        e = new0(self, *a, **k)
        flip(self)
        return e

    newton_ah._CIAH_SOSCF.kernel = newton

    def run_scf(self, dm0=None, **kw):
        if not self.mol._atom or kw or (dm0 is not None and not RANKED):
            e = scf0(self, dm0, **kw)
            flip(self)
            return e
        key = ("scf", type(self).__name__, molkey(self.mol))
        if dm0 is not None:
            key += (_h(np.asarray(dm0), self.get_hcore(), self.get_ovlp(), np.asarray(self._eri)),)
        if key not in _memo:
            self.chkfile = None
            with quiet():
                scf0(self, dm0)
            _memo[key] = (self.e_tot, self.mo_energy, np.array(self.mo_coeff), self.mo_occ,
                          self.converged, self._eri)
        e, me, mc, mo, cv, eri = _memo[key]
        if self._eri is None:
            self._eri = eri
        self.e_tot, self.mo_energy, self.mo_occ, self.converged = e, np.array(me), np.array(mo), cv
        self.mo_coeff = np.array(mc) * signs(mc.shape[1], gauge())
        return e

    scf.hf.SCF.scf = run_scf
    scf.hf.SCF.kernel = run_scf

    def wrap(cls, name, args):
        f0 = getattr(cls, name)

        def f(self, *a, **k):
            key = (cls.__name__, name, _h(*args(self)), _h(*a), _h(*sorted(k.items())))
            if key not in _memo:
                with quiet():
                    out = f0(self, *a, **k)
                _memo[key] = (out, getattr(self, "mo_coeff", None), getattr(self, "ci", None),
                              getattr(self, "e_corr", None))
            out, mc, c, ec = _memo[key]
            if mc is not None and cls.__module__.startswith("pyscf.lo"):
                self.mo_coeff = np.array(mc)
            if cls.__module__.startswith("pyscf.ci"):
                self.ci, self.e_corr = c, ec
            return out if not isinstance(out, np.ndarray) else np.array(out)
        setattr(cls, name, f)

    orth0 = lo.orth_ao

    def orth_ao(*a, **k):
        with quiet():
            return orth0(*a, **k)
    lo.orth_ao = orth_ao

    from pyscf.lo import boys, edmiston, pipek
    done = set()
    for cls in (lo.Boys, lo.PipekMezey, lo.EdmistonRuedenberg):
        if not isinstance(cls, type):
            continue
        for base in (cls,):
            if base not in done:
                done.add(base)
                wrap(base, "kernel", lambda s: (molkey(s.mol), np.array(s.mo_coeff), s.init_guess))
    wrap(fci.direct_spin1.FCISolver, "kernel", lambda s: ())
    cis = [c for c in (getattr(ci.cisd, "RCISD", None), getattr(ci.cisd, "CISD", None)) if c]
    for c in dict.fromkeys(cis):
        wrap(c, "kernel", lambda s: (molkey(s.mol), np.array(s.mo_coeff)))


# --- independent reference for the water data set ---------------------------------------
H2O = [["H", (0.0, 0.795, -0.454)], ["H", (0.0, -0.795, -0.454)], ["O", (0.0, 0.0, 0.113)]]
_ref = {}


def h2o_reference(basis, method, gauge):
    """{configuration tuple: amplitude} computed without the code under test."""
    global GAUGE
    key = (basis, method, gauge)
    if key in _ref:
        return _ref[key]
    from pyscf import ao2mo, ci, fci, gto, lo, scf
    saved, GAUGE = GAUGE, gauge
    try:
        mol = gto.Mole()
        mol.build(atom=H2O, basis="sto-3g", unit="Angstrom")
        mf = scf.RHF(mol)
        mf.scf()
        C = mf.mo_coeff
        nocc = mol.nelectron // 2
        if basis == "LOCAL":
            C = lo.orth_ao(mol, "meta_lowdin")
        elif basis == "BOYS":
            l = lo.Boys(mol, lo.orth_ao(mol, "meta_lowdin"))
            l.init_guess = None
            C = l.kernel()
        elif basis == "SPLIT":
            C = np.concatenate((lo.Boys(mol, mf.mo_coeff[:, :nocc]).kernel(),
                                lo.Boys(mol, mf.mo_coeff[:, nocc:]).kernel()), axis=1)
        n = C.shape[1]
        if method == "FCI":
            h1 = C.T @ mf.get_hcore() @ C
            h2 = ao2mo.restore(1, ao2mo.kernel(mol, C), n)
            _, c = fci.direct_spin1.FCISolver(mol).kernel(h1, h2, n, mol.nelectron)
        else:
            s = ci.CISD(mf)
            _, v = s.kernel()
            c = s.to_fcivec(v)
        c = np.asarray(c)
        strs = fci.cistring.make_strings(range(n), nocc)
        out = {}
        for i, a in enumerate(strs):
            for j, b in enumerate(strs):
                out[tuple(((int(a) >> k) & 1) + 2 * ((int(b) >> k) & 1) for k in range(n))] = c[i, j]
    finally:
        GAUGE = saved
    _ref[key] = out
    return out


# --- independent reference for molecular systems ------------------------------------------
def molecule_reference(sysc, gauge):
    """Integrals and Hartree-Fock orbitals of a system configuration (plain dict)."""
    global GAUGE
    key = ("mol", repr(sorted(sysc.items())), gauge)
    if key in _ref:
        return _ref[key]
    from pyscf import ao2mo, gto, lo, scf
    saved, GAUGE = GAUGE, gauge
    try:
        ne = sysc.get("n_elec")
        mol = gto.M(atom=sysc["molecule"], basis=sysc["basis_set"], symmetry=sysc["symmetry"],
                    unit=sysc["unit"], spin=(ne[0] - ne[1]) if ne else 0, verbose=0)
        mf = scf.RHF(mol) if mol.spin == 0 else scf.ROHF(mol)
        mf.scf()
        S = mf.get_ovlp()
        nocc = mol.nelectron // 2
        b = sysc["basis"]
        if b == "canonical":
            B = mf.mo_coeff
        elif b == "local-split":
            B = np.concatenate((lo.Boys(mol, mf.mo_coeff[:, :nocc]).kernel(),
                                lo.Boys(mol, mf.mo_coeff[:, nocc:]).kernel()), axis=1)
        else:
            B = lo.orth_ao(mol, "lowdin")
            if b == "local-boys":
                l = lo.Boys(mol, mo_coeff=B)
                l.init_guess = None
                B = l.kernel()
            elif b == "local-pipek-mezey":
                B = lo.PipekMezey(mol, mo_coeff=B).kernel()
            elif b == "local-edmiston-ruedenberg":
                B = lo.EdmistonRuedenberg(mol, mo_coeff=B).kernel()
        n = B.shape[1]
        h1 = B.T @ mf.get_hcore() @ B
        h2 = ao2mo.restore(1, ao2mo.kernel(mol, B), n)
        thr = sysc.get("pruning_threshold") or 0.0
        h1 = np.where(np.abs(h1) < thr, 0.0, h1)
        h2 = np.where(np.abs(h2) < thr, 0.0, h2)
        T = B.T @ S @ mf.mo_coeff
        na, nb = mol.nelec
        K = mf.get_jk(mol, mf.make_rdm1())[1]
        out = dict(h1=h1, h2=h2, alpha=T[:, :na], beta=T[:, :nb], nelec=(na, nb), norb=n,
                   closed=mol.spin == 0, basis=np.array(B),
                   exchange=B.T @ K @ B if mol.spin == 0 else None)
    finally:
        GAUGE = saved
    _ref[key] = out
    return out


def expected_orbitals(ref, restricted, fixed):
    a, b = ref["alpha"], ref["beta"]
    n, na, nb = ref["norb"], a.shape[1], b.shape[1]
    if fixed and restricted:
        return a
    if fixed:
        return np.concatenate((a, b), axis=1)
    out = np.zeros((2 * n, na + nb))
    out[:n, :na] = a
    out[n:, na:] = b
    return out
