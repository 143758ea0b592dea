"""F05: the ab-initio benchmark programs, killed and restarted in one directory.

The programs of scripts/GPS_for_ab_initio run as they are, on every simulated rank, in a directory
on the simulated disk.  Sampling is replaced by a state whose energies and variances the harness
scripts, so that long histories (the programs stop after hundreds of steps without improvement) are
reached; integrals, checkpoints, bookkeeping, optimiser and driver are the real code.  The files and
the parameters used on every rank are compared with a reference model after every incarnation.
"""
from __future__ import annotations

import contextlib
import hashlib
import io
import os
import pickle
import sys
import types

import numpy as np

from . import chem
from . import common as C
from . import fermi as F
from simlib import core, disk as D
from simlib.runner import Result

PROPERTY = "F05"
RULE = "nontrivial: at least two incarnations in one directory, or several ranks; keyed by the disk history and outcome"
REAL = ["scripts/GPS_for_ab_initio/{H50_1D,H2O,H4x4x4}.py (whole programs)", "AbInitioHamiltonianOnTheFly, models "
        "(initial parameters)", "netket VMC driver, optimiser, SR wrapper", "pickle, numpy.save/load/genfromtxt",
        "pyscf (memoised solvers)"]
STUB = ["MPI transport", "file system (interception points over a scratch directory)", "process kills",
        "command line, working directory", "Monte Carlo state: scripted energies, gradients and samples",
        "smaller basis, hydrogen systems cut to 2-4 atoms", "orbital signs chosen per incarnation and rank"]
ASSUMPTIONS = ["process-crash model: data handed to the kernel survives a kill; no power loss",
               "one job at a time uses a directory"]
BUDGET = {"quick": (24, 12, 75), "thorough": (600, 40, 1500)}

STOP = {"H50_1D": 100, "H2O": 200, "H4x4x4": 250}
WARM = {"H50_1D": 0, "H2O": 0, "H4x4x4": 1000}


# --- cases ---------------------------------------------------------------------------------
def gen_block(rng, b):
    script = ["H50_1D", "H2O", "H4x4x4"][b % 3]
    blk = {"n": [1, 2, 3, 2][(b // 3) % 4], "script": script, "atoms": 2 if b % 2 else 4}
    if script == "H2O":
        blk["ref"] = rng.choice([0, 1, 1, 2, 3, 4, 5])
        blk["basis"] = rng.randrange(3)
    blk["pre"] = (b // 3) % 2 == 1
    if blk["pre"]:      # long histories are made once per worker: few kinds
        blk["atoms"], blk["n"] = 2, [2, 3, 1, 2][(b // 6) % 4]
        if script == "H2O":
            blk["ref"], blk["basis"] = b % 2, 1
    return blk


def gen_case(blk, rng, i):
    n = blk["n"]
    case = {**blk, "seed": rng.randrange(10**6), "better": rng.choice([0.0, 0.0, 0.0, 0.5] if blk["pre"] else [0.0, 0.2, 0.5, 1.0]),
            "gauges": rng.random() < 0.8, **C.sched_fields(rng)}
    case["rows"] = 0
    if blk["pre"]:      # half of them a few steps before the program ends
        snap = SNAP[blk["script"]]
        case["rows"] = rng.randrange(len(snap)) if i % 2 else len(snap) - 1 - rng.randrange(6)
    runs = []
    for k in range(rng.choice([0, 1, 1, 2] if blk["pre"] else [1, 1, 2, 3])):
        run = {"kill": None, "disk": [], "gauge": rng.randrange(3), "evals": rng.choice([1, 2, 3, 5]),
               "arg": rng.random() < 0.5, **C.sched_fields(rng)}
        x = rng.random()
        if x < 0.5:
            run["kill"] = {"kind": "killdisk", "rank": 0, "nth": rng.randint(1, 30 if not blk["pre"] else 14),
                           "grace": rng.choice([0, 0, 3, 20])}
        elif x < 0.75:
            run["kill"] = {"kind": "kill", "rank": rng.randrange(n), "at": rng.randint(1, 60 + 140 * n),
                           "grace": rng.choice([0, 0, 3, 20])}
        elif x < 0.9:
            run["disk"] = [{"kind": rng.choice(["enospc", "enospc", "eio", "short", "eioread"]),
                            "nth": rng.randint(1, 14), "len": rng.choice([1, 1, 2, 50])}]
        runs.append(run)
    runs.append({"kill": None, "disk": [], "gauge": rng.randrange(3), "evals": rng.choice([4, 6, 8, 9] if blk["pre"] else [2, 4, 6]),
                 "arg": False, **C.sched_fields(rng)})
    case["runs"] = runs
    return case


def shrink(case):
    runs = case["runs"]
    for k in range(len(runs)):
        if len(runs) > 1:
            yield {**case, "runs": runs[:k] + runs[k + 1:]}
    for k, r in enumerate(runs):
        for key, v in (("kill", None), ("disk", []), ("evals", 1), ("gauge", 0)):
            if r[key] != v:
                yield {**case, "runs": runs[:k] + [{**r, key: v}] + runs[k + 1:]}
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}
    if case["pre"]:
        yield {**case, "pre": False, "rows": 0}


# --- the scripted Monte Carlo state ----------------------------------------------------------
class Job:
    """What the running incarnation observes and is told."""
    def __init__(self):
        self.evals = []        # one per evaluation: dict(params=..., after=..., per rank)
        self.limit = 0         # the job is killed at this evaluation (queue time)
        self.offset = 0
        self.variance = None
        self.seed = 0
        self.hams = []
        self.inits = []
        self.snap = None
        self.rank_evals = {}
        self.scripted = True


JOB = Job()


def leaves(t):
    import jax
    return [np.array(x) for x in jax.tree_util.tree_leaves(t)]


def digest(t):
    m = hashlib.sha256()
    for x in leaves(t):
        m.update(str((x.shape, str(x.dtype))).encode())
        m.update(np.ascontiguousarray(x).tobytes())
    return m.hexdigest()[:16]


def scripted(e):
    """Energy, variance and error of evaluation e of the history (repeatable)."""
    rs = np.random.RandomState((JOB.seed * 1009 + 7 * e + 3) % 2**31)
    return complex(rs.randn(), 0.01 * rs.randn()), float(JOB.variance(e)), float(abs(rs.randn()))


class _QGT:
    def solve(self, solver, grad, *, x0=None, **k):
        return grad, None


_init_cache = {}


def real_init(model, hi, key):
    """Initial parameters from the model's own initialisers."""
    import jax
    x = np.asarray([F.sector(hi.size, tuple(int(v) for v in hi._n_elec))[0]], dtype=np.uint8)
    with jax.disable_jit():
        return model.init(jax.random.PRNGKey(key), jax.numpy.asarray(x))["params"]


def make_state():
    import jax
    import netket as nk
    from netket.utils.mpi import MPI_py_comm, n_nodes

    class State:
        def __init__(self, sampler, model=None, *, n_samples=None, n_samples_per_rank=None,
                     n_discard_per_chain=None, chunk_size=None, seed=None, **kw):
            self.sampler, self.model = sampler, model
            self.hilbert = sampler.hilbert
            nch = sampler.n_chains_per_rank * n_nodes
            total = n_samples if n_samples is not None else (n_samples_per_rank or 1) * n_nodes
            self.n_samples = -(-int(total) // nch) * nch
            self.n_samples_per_rank = self.n_samples // n_nodes
            self.n_discard_per_chain, self.chunk_size = n_discard_per_chain, chunk_size
            self.sampler_state = types.SimpleNamespace(acceptance=0.5)
            self.model_state = {}
            # like netket: the seed is drawn on the first rank and shared
            self._p = real_init(model, self.hilbert, JOB.seed + 17 * JOB.offset)
            JOB.inits.append((core.CURRENT.current, leaves(self._p)))
            self._ev = None
            self.last = None

        @property
        def parameters(self):
            return self._p

        @parameters.setter
        def parameters(self, p):
            old = self._p
            self._p = jax.tree_util.tree_map(jax.numpy.asarray, p)
            if self._ev is not None and self._ev["after"] is None:
                self._ev["after"] = digest(self._p)
            if self._ev is not None:
                self._ev["set"].append((core.CURRENT.current, digest(self._p)))

        @property
        def variables(self):
            return {"params": self._p}

        @property
        def n_parameters(self):
            return sum(x.size for x in leaves(self._p))

        def reset(self):
            pass

        def init_parameters(self, *a, **k):
            pass

        def _evaluate(self):
            sim = core.CURRENT
            r = sim.current
            k = JOB.rank_evals[r] = JOB.rank_evals.get(r, 0) + 1
            if JOB.snap is not None and r == 0:
                JOB.snap(k)
            if k > JOB.limit:
                sim.fire("kill at evaluation")
                for rk in sim.ranks:
                    sim.kill_rank(rk.r)
                raise core.SimKilled()
            seen = MPI_py_comm.allgather(digest(self._p))
            MPI_py_comm.barrier()
            if len(JOB.evals) < k:
                e = JOB.offset + k - 1
                en, var, err = scripted(e)
                JOB.evals.append({"e": e, "params": seen[r], "all": list(seen), "after": None, "set": [],
                                  "energy": en, "variance": var, "error": err, "ns": self.n_samples,
                                  "leaves": leaves(self._p)})
            self._ev = JOB.evals[k - 1]
            self._ev["ranks"] = self._ev.get("ranks", 0) + 1
            return self._ev

        def expect_and_grad(self, op, **kw):
            ev = self._evaluate()
            JOB.hams.append((core.CURRENT.current, np.array(op.h_mat), np.array(op.eri_mat)))
            st = nk.stats.Stats(mean=np.complex128(ev["energy"]), error_of_mean=np.float64(ev["error"]),
                                variance=np.float64(ev["variance"]), tau_corr=np.float64(0.25), R_hat=np.float64(1.01))
            rs = np.random.RandomState((JOB.seed + 31 * ev["e"]) % 2**31)

            def g(x):
                d = rs.randn(*x.shape) * 0.01
                if np.iscomplexobj(x):
                    d = d + 1j * rs.randn(*x.shape) * 0.01
                return jax.numpy.asarray(d.astype(x.dtype))
            return st, jax.tree_util.tree_map(g, self._p)

        def expect(self, op, **kw):
            return self.expect_and_grad(op)[0]

        def quantum_geometric_tensor(self, *a, **k):
            return _QGT()

        @property
        def samples(self):
            ev = self._ev
            S = F.sector(self.hilbert.size, tuple(int(v) for v in self.hilbert._n_elec))
            rs = np.random.RandomState((JOB.seed + 97 * ev["e"] + 7919 * core.CURRENT.current) % 2**31)
            x = np.asarray(S)[rs.randint(len(S), size=2)].astype(np.uint8)
            ev.setdefault("samples", {})[core.CURRENT.current] = x
            return jax.numpy.asarray(x.reshape(1, 2, -1))

        def sample(self, *a, **k):
            return self.samples

        def log_value(self, x):
            x = np.asarray(x)
            return jax.numpy.asarray(amplitude(self._ev["params"], x))

    return State


def amplitude(key, x):
    rs = np.random.RandomState(int(key[:7], 16))
    L = x.shape[-1]
    w = 0.5 * (rs.randn(L, 4) + 1j * rs.randn(L, 4))
    return np.sum(w[np.arange(L), x.astype(int)], axis=-1)


# --- world ---------------------------------------------------------------------------------
def world(n):
    pk = ("netket", "GPSKet", "GPSKet.models", "GPSKet.models.pfaffian", "GPSKet.models.slater",
          "GPSKet.hilbert.discrete_fermion", "GPSKet.sampler.fermionic_hopping",
          "GPSKet.operator.hamiltonian.ab_initio", "GPSKet.nn.initializers", "GPSKet.operator.fermion")
    w = C.get_world(n, packages=pk, key="abinitio")
    if not getattr(w, "_scripted", False):
        w._scripted = True
        for r in range(n):
            with w.as_rank(r):
                import netket as nk
                S = make_state()
                import importlib
                for m in ("netket.vqs", "netket.vqs.mc", "netket.vqs.mc.mc_state", "netket.vqs.mc.mc_state.state"):
                    importlib.import_module(m).MCState = S
                for m in ("netket.optimizer.qgt", "netket.optimizer"):
                    mm = importlib.import_module(m)
                    for q in ("QGTAuto", "QGTOnTheFly", "QGTJacobianDense", "QGTJacobianPyTree"):
                        if hasattr(mm, q):
                            setattr(mm, q, lambda vstate=None, *a, **k: (lambda *a, **k: _QGT())
                                    if vstate is None else _QGT())
                sgd = nk.optimizer.Sgd
                memo = {}

                def Sgd(*a, _f=sgd, _m=memo, **k):
                    key = repr((a, sorted(k.items())))
                    if key not in _m:
                        _m[key] = _f(*a, **k)
                    return _m[key]
                nk.optimizer.Sgd = Sgd
    return w


_code = {}


def code(script):
    if script not in _code:
        p = os.path.join(os.environ.get("GPSKET_REPO", "/repo"), "scripts", "GPS_for_ab_initio", script + ".py")
        with open(p) as f:
            _code[script] = compile(f.read(), p, "exec")
    return _code[script]


def program(case):
    co = code(case["script"])

    def prog(r):
        g = {"__name__": "__main__", "__file__": co.co_filename, "__builtins__": __builtins__}
        exec(co, g)  # noqa: S102
        return True
    return prog


def argv(case):
    M = 40 if case["script"] != "H2O" else 12
    if case["script"] == "H2O":
        return ["H2O.py", str(M), str(case["ref"]), str(case["basis"]), "40"]
    return [case["script"] + ".py", str(M), {"H50_1D": "1.9", "H4x4x4": "1.1"}[case["script"]]]


@contextlib.contextmanager
def environment(case, gauge):
    import numba
    saved = (sys.argv, numba.jit, chem.GAUGE, chem.FORCE_BASIS, chem.TRUNCATE, chem.RANKED)
    sys.argv = argv(case)
    numba.jit = lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)
    chem.GAUGE, chem.FORCE_BASIS, chem.RANKED = gauge, "sto-3g", True
    chem.TRUNCATE = None if case["script"] == "H2O" else case["atoms"]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        sys.argv, numba.jit, chem.GAUGE, chem.FORCE_BASIS, chem.TRUNCATE, chem.RANKED = saved


# --- reference for the molecule ----------------------------------------------------------------
_mol = {}


def molecule(case):
    """AO integrals and nuclear repulsion of the (cut) system, from the description in the README."""
    key = (case["script"], case["atoms"])
    if key not in _mol:
        from pyscf import gto
        if case["script"] == "H2O":
            at, unit, sym = chem.H2O, "Angstrom", False
        elif case["script"] == "H50_1D":
            at, unit, sym = [("H", (1.9 * i, 0.0, 0.0)) for i in range(case["atoms"])], "Bohr", True
        else:
            at = [("H", (0.0, 0.0, 1.1 * i)) for i in range(case["atoms"])]
            unit, sym = "A", True
        mol = gto.M(atom=at, basis="sto-3g", unit=unit, symmetry=sym, verbose=0)
        f = 1.0 if unit == "Bohr" else 1 / 0.52917721092
        Z = {"H": 1, "O": 8}
        X = np.array([a[1] for a in at]) * f
        en = sum(Z[at[i][0]] * Z[at[j][0]] / np.linalg.norm(X[i] - X[j])
                 for i in range(len(at)) for j in range(i))
        _mol[key] = dict(S=mol.intor("int1e_ovlp"), h=mol.intor("int1e_kin") + mol.intor("int1e_nuc"),
                         eri=mol.intor("int2e"), nuc=en, nelec=mol.nelectron)
    return _mol[key]


def rdm_expected(ev, L, ne):
    X = np.concatenate([ev["samples"][r] for r in sorted(ev["samples"])])
    out = np.zeros((2, L, L), complex)
    lp = amplitude(ev["params"], X)
    for x, l0 in zip(X, lp):
        for s, bit in ((0, 1), (1, 2)):
            occ = [(int(v) & bit) != 0 for v in x]
            for i in range(L):
                for j in range(L):
                    # <x| c+_i c_j |x'>: x' has the particle of i moved to j
                    if not occ[i] or (i != j and occ[j]):
                        continue
                    y = np.array(x)
                    sign = 1
                    if i != j:
                        y[i] &= ~bit & 3
                        y[j] |= bit
                        lo, hi = min(i, j), max(i, j)
                        sign = -1 if sum(occ[lo + 1:hi]) % 2 else 1
                    out[s, i, j] += sign * np.exp(amplitude(ev["params"], y) - l0)
    return out / len(X)


# --- reference model of the directory ------------------------------------------------------------
class History:
    def __init__(self, case):
        self.script = case["script"]
        self.stop, self.warm = STOP[self.script], WARM[self.script]
        self.evals = []        # all evaluations so far
        self.rows = []         # index of the evaluation each row of out.txt records
        self.ham = None
        self.nuc = molecule(case)["nuc"]
        self.rdm = []

    def copy(self):
        h = object.__new__(History)
        h.__dict__.update(self.__dict__)
        h.evals, h.rows = list(self.evals), list(self.rows)
        return h

    def counts(self):
        """Steps without improvement after the recorded rows."""
        best, count = None, 0
        for i in self.rows[self.warm:]:
            v = self.evals[i]["variance"]
            if best is None or v < best:
                best, count = v, 0
            else:
                count += 1
        return count

    def incarnation(self, ev, outcomes, path, faults):
        where = f"after {len(self.rows)} recorded steps"
        prev = self.evals[-1] if self.evals else None
        count0 = self.counts()
        base = len(self.evals)
        for k, e in enumerate(ev):
            if len(set(e["all"])) > 1:
                return "ranks-differ", f"step {k + 1} {where}: the ranks use different parameters"
            if prev is not None and e["params"] not in (prev["params"], prev["after"]):
                return "wrong-parameters", (
                    f"step {k + 1} {where}: parameters are neither those of the previous step nor their update")
            if k and e["params"] != ev[k - 1]["after"]:
                return "wrong-parameters", f"step {k + 1} {where} does not use the parameters of the update before it"
            if len({x for _, x in e["set"]}) > 1:
                return "ranks-differ", f"step {k + 1} {where}: the ranks update to different parameters"
            prev = e
        self.evals += ev
        # rows of out.txt
        try:
            with open(os.path.join(path, "out.txt")) as f:
                text = f.read()
        except FileNotFoundError:
            text = ""
        if text and not text.endswith("\n"):
            return "torn-row", "out.txt ends with an incomplete row"
        lines = text.splitlines()
        if len(lines) < len(self.rows):
            return "rows-lost", f"out.txt has {len(lines)} rows, {len(self.rows)} had been written"
        new = len(lines) - len(self.rows)
        if not len(ev) - 1 <= new <= len(ev):
            return "rows", f"{len(ev)} steps were made {where}, out.txt has {new} new rows"
        idx = self.rows + list(range(base, base + new))
        for k, i in enumerate(idx):
            if k < len(self.rows) - 2:
                continue
            e = self.evals[i]
            row = [float(x) for x in lines[k].split()]
            want = [e["energy"].real + self.nuc, e["energy"].imag, e["error"], e["variance"]]
            if len(row) != 8 or C.differs(np.array(row[:4]), np.array(want), 1e-9):
                return "wrong-row", f"row {k} is {lines[k]}, expected energy, error, variance {want}"
        self.rows = idx
        # stopping
        for k, _ in enumerate(ev):
            h = self.copy()
            h.rows = idx[:len(idx) - new] + list(range(base, base + k))
            if h.counts() >= self.stop:
                return "not-stopped", (f"a step was made although the variance had not improved for {h.counts()} "
                                       f"steps (limit {self.stop})")
        finished = all(o[0] == "ok" for o in outcomes)
        if finished and self.counts() < self.stop:
            return "stopped-early", (f"the program ended with {len(self.rows)} recorded steps, {self.counts()} since "
                                     f"the variance improved (limit {self.stop}, warm-up {self.warm})")
        self.finished = finished
        # best parameters
        tracked = self.rows[self.warm:]
        if tracked:
            b = min(tracked, key=lambda i: (self.evals[i]["variance"], i))
            ok = {self.evals[b]["params"]}
            ok |= {self.evals[i]["params"] for i in range(b, len(self.evals))
                   if i not in tracked and self.evals[i]["variance"] < self.evals[b]["variance"]}
            try:
                with open(os.path.join(path, "best_pars.pickle"), "rb") as f:
                    got = digest(pickle.load(f))
            except Exception as x:  # noqa: BLE001
                return "best-unreadable", f"best_pars.pickle: {core.label_of(x)} with {len(self.rows)} recorded steps"
            if got not in ok:
                which = [k for k, i in enumerate(self.rows) if self.evals[i]["params"] == got]
                return "wrong-best", (f"best_pars.pickle holds the parameters of row {which}, the smallest variance "
                                      f"is in row {self.rows.index(b)} of {len(self.rows)}")
        return None


def check_integrals(case, hist, job, path):
    """One Hamiltonian on all ranks and in all incarnations, the molecule in an orthonormal basis."""
    if not job.hams:
        return None
    r0, h1, h2 = job.hams[0]
    for r, a, b in job.hams[1:]:
        if not (np.array_equal(a, h1) and np.array_equal(b, h2)):
            return "ranks-differ", f"rank {r} uses other integrals than rank {r0}"
    if hist.ham is not None:
        if C.differs(h1, hist.ham[0], 1e-9) or C.differs(h2, hist.ham[1], 1e-9):
            return "integrals-changed", "the integrals differ from those the run was started with"
    else:
        m = molecule(case)
        try:
            B = np.load(os.path.join(path, "basis.npy"))
        except Exception as x:  # noqa: BLE001
            return "basis-unreadable", core.label_of(x)
        n = m["S"].shape[0]
        if B.shape != (n, n) or C.differs(B.T @ m["S"] @ B, np.eye(n), 1e-6):
            return "wrong-basis", "basis.npy is not an orthonormal basis of the molecule"
        w1 = B.T @ m["h"] @ B
        w2 = np.einsum("abcd,ai,bj,ck,dl->ijkl", m["eri"], B, B, B, B, optimize=True)
        if C.differs(h1, w1, 1e-6) or C.differs(h2, w2, 1e-6):
            return "wrong-integrals", (f"integrals deviate from the molecule's in the stored basis by "
                                       f"{C.err(h1, w1):.2g} / {C.err(h2, w2):.2g}")
    hist.ham = (h1, h2)
    # reference determinant: Hartree-Fock orbitals, the same on all ranks
    for r, p in job.inits[1:]:
        if not all(np.array_equal(a, b) for a, b in zip(p, job.inits[0][1])):
            return "ranks-differ", f"rank {r} starts from other initial parameters than rank {job.inits[0][0]}"
    return None


def check_rdms(case, hist, new, path):
    if case["script"] != "H4x4x4":
        return None
    L, ne = case["atoms"], (case["atoms"] // 2,) * 2
    for k in range(len(hist.rows) - new, len(hist.rows)):
        ev = hist.evals[hist.rows[k]]
        try:
            got = np.load(os.path.join(path, f"oneBRDM_{k}.npy"))
        except Exception as x:  # noqa: BLE001
            return "rdm-unreadable", f"oneBRDM_{k}.npy: {core.label_of(x)}".replace(path, "<dir>")
        if C.differs(got, rdm_expected(ev, L, ne), 1e-9):
            return "wrong-rdm", f"oneBRDM_{k}.npy deviates from the average over the samples of step {k}"
    return None


# --- long histories, produced once per worker by the real program ----------------------------------
# number of recorded rows after which the directory is kept; the variance is smallest in row LOW[0]
# and, of the rows after it, in row LOW[1]
LOW = {"H50_1D": (0, 2), "H2O": (0, 0), "H4x4x4": (4, 1000)}
SNAP = {"H50_1D": [1, 2, 3, 98, 99, 100, 101, 102, 103], "H2O": [1, 2, 196, 197, 198, 199, 200, 201],
        "H4x4x4": [5, 254, 257, 999, 1000, 1001, 1002, 1246, 1247, 1248, 1249, 1250, 1251]}
_snaps = {}


def take(path):
    out = {}
    for f in sorted(os.listdir(path)):
        with open(os.path.join(path, f), "rb") as fl:
            out[f] = fl.read()
    return out


def put(path, files):
    for f, b in files.items():
        with open(os.path.join(path, f), "wb") as fl:
            fl.write(b)


def snapshots(case, w):
    global JOB
    key = (case["script"], case["atoms"], case.get("ref"), case.get("basis"))
    if key in _snaps:
        return _snaps[key]
    rows = SNAP[case["script"]]
    low = LOW[case["script"]]
    saved, JOB = JOB, Job()
    d = D.Disk()
    d.mkroot()
    path = os.path.join(d.root, "work")
    os.makedirs(path)
    d.cwd = path
    got = {}
    bad = []
    try:
        JOB.seed, JOB.limit = 4242, max(rows)
        first = 0.5 if WARM[case["script"]] else 2.5
        JOB.variance = lambda e: 1.0 if e == low[1] else first if e == low[0] else 2.0 + 0.01 * (e % 7)

        def snap(k):
            if k - 1 in rows:
                D.ACTIVE, on = None, D.ACTIVE      # the harness reads, not the program
                got[k - 1] = take(path)
                D.ACTIVE = on
        JOB.snap = snap
        d.next_run([])
        with D.use(d), environment(case, 0):
            sim = core.Sim(1, seed=1, world=w, policy="roundrobin", max_steps=10**7)
            out = sim.run(program(case))
        full = History(case)
        for k in rows:
            if k not in got and out[0][0] == "ok" and k == len(JOB.evals):
                got[k] = take(path)
            h = History(case)
            h.evals = [{**e, "leaves": None} for e in JOB.evals[:k]]
            h.rows = list(range(k))
            if JOB.hams:
                h.ham = JOB.hams[0][1:]
            if k in got:
                got[k] = (got[k], h)
        if out[0][0] == "exc":
            bad.append((f"exception:{type(out[0][1]).__name__}", core.label_of(out[0][1]) + " " + C.short_tb(sim.ranks[0].tb)))
        else:
            full.evals = []
            r = full.incarnation(JOB.evals, out, path, ()) or check_integrals(case, full, JOB, path) \
                or check_rdms(case, full, len(full.rows), path)
            if r:
                bad.append(r)
            elif any(k not in got for k in rows):
                bad.append(("stopped-early", f"only {len(JOB.evals)} steps of an undisturbed run"))
    finally:
        JOB = saved
        d.remove()
    _snaps[key] = (got, bad)
    return _snaps[key]


# --- running -------------------------------------------------------------------------------------
def run_case(case):
    global JOB
    res = Result()
    chem.install()
    D.install()
    n = case["n"]
    w = world(n)
    hist = History(case)
    d = D.Disk()
    d.mkroot()
    path = os.path.join(d.root, "work")
    os.makedirs(path)
    d.cwd = path
    log = []
    try:
        if case["pre"]:
            got, bad = snapshots(case, C.get_world(1) and world(1))
            if bad:
                return res.bad(bad[0][0], "undisturbed run: " + bad[0][1].replace(d.root, "<dir>"))
            rows = SNAP[case["script"]][case["rows"]]
            files, h = got[rows]
            put(path, files)
            hist = h.copy()
        rs = np.random.RandomState(case["seed"])
        draws = rs.rand(64, 2)
        lowest = min([e["variance"] for e in hist.evals] + [2.0])
        off = len(hist.evals)
        vs = []
        for u, v in draws:
            if u < case["better"]:
                lowest *= 0.7 + 0.29 * v
                vs.append(lowest)
            else:
                vs.append(lowest if v < 0.1 else lowest + v)
        for k, run in enumerate(case["runs"]):
            JOB = Job()
            JOB.seed, JOB.limit, JOB.offset = case["seed"], run["evals"], len(hist.evals)
            JOB.variance = lambda e, off=off: vs[(e - off) % 64]
            d.next_run(run["disk"])
            with D.use(d), environment(case, run["gauge"] if case["gauges"] else 0):
                sim, out = C.run_job({**case, **{x: run[x] for x in ("sched", "policy")}}, n, program(case), res,
                                     world=w, faults=[run["kill"]] if run["kill"] else (), allow_exc=True, salt=k)
            d.close()
            if res.violation:
                return res
            disturbed = any(f.startswith("E") for f in sim.fired)
            for r, o in enumerate(out):
                if o[0] == "exc" and not (disturbed and isinstance(o[1], OSError)):
                    return res.bad(f"exception:{type(o[1]).__name__}",
                                   f"run {k}, rank {r}: " + core.label_of(o[1]).replace(d.root, "<dir>") + "\n"
                                   + C.short_tb(sim.ranks[r].tb))
            before = len(hist.rows)
            ev = [e for e in JOB.evals if e.get("ranks")]
            bad = hist.incarnation(ev, out, path, sim.fired) or check_integrals(case, hist, JOB, path) \
                or check_rdms(case, hist, len(hist.rows) - before, path)
            if bad:
                return res.bad(bad[0], f"run {k}: " + bad[1].replace(d.root, "<dir>"))
            if not any(o[0] == "killed" for o in out) and not disturbed:
                res.probe("program ended by itself")
            log.append((tuple(o[0] for o in out), sorted(sim.fired.items()), len(ev), len(hist.rows)))
            for o in out:
                res.probe("rank " + o[0])
            res.probe(f"{case['script']}: {'resumed' if before else 'started'}")
    finally:
        JOB = Job()
        d.remove()
    res.note(log)
    if n > 1 or len(case["runs"]) > 1:
        res.key = res.digest
    return res
