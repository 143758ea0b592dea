"""R01: density matrices written by the sampling program, against an independent evaluation.

The real program runs on every rank over the simulated MPI and disk.  The samples every rank drew
are recorded; the files must hold the averages over exactly these samples, evaluated from the
Jordan-Wigner matrices of the excitation operators and the amplitudes of the recorded best
parameters.
"""
from __future__ import annotations

import contextlib
import io
import os

import numpy as np

from . import chem
from . import common as C
from . import fermi as F
from . import ref
from . import train as T
from .F02 import MOLS
from .F03 import plain
from simlib import core, disk as D
from simlib.runner import Result

PROPERTY = "R01"
RULE = "nontrivial: the pooled samples contain several configurations; keyed by samples and layout"
REAL = ["cpd_backflow.rdms (main), corrfunc.get_correlations, systems, models, configs, utils", "AbInitioHamiltonianOnTheFly local density "
        "matrices", "MetropolisHopping, backflow model with incremental updates", "numpy.save"]
STUB = ["MPI transport", "file system (interception points over a scratch directory)", "process kills",
        "command-line flags, clocks, process ids", "pyscf solvers memoised", "estimator wrapped in jax.jit"]
ASSUMPTIONS = ["estimators are compared after averaging over the index permutations of real integrals"]
BUDGET = {"quick": (16, 30, 60), "thorough": (160, 200, 1500)}

SYS = [("H2", None), ("H3", (2, 1)), ("H4", None), ("H4", (3, 1))]


def gen_block(rng, b):
    n = [1, 2, 3, 2][b % 4]
    mol, ne = SYS[(b // 4 + b) % 4]
    return {"n": n, "mol": mol, "n_elec": ne and list(ne), "dtype": "complex" if b % 8 == 5 else "real",
            "restricted": ne is None and b % 3 == 0, "fixed": b % 5 != 4,
            "chains": rng.choice([1, 2]), "per": rng.choice([1, 2, 3]),
            "basis": rng.choice(["canonical", "local-boys", "local-pipek-mezey"])}


def gen_case(blk, rng, i):
    n = blk["n"]
    case = {**blk, "chunks": rng.choice([1, 1, 2, 3]), "yaml": rng.random() < 0.4, "seed": rng.randrange(10**6),
            "scale": rng.choice([0.05, 0.3]), "kill": None, **C.sched_fields(rng)}
    if rng.random() < 0.25:
        case["kill"] = {"kind": "kill", "rank": rng.randrange(n), "at": rng.randint(5, 40 + 40 * (n - 1)),
                        "grace": rng.choice([0, 5])}
    return case


def shrink(case):
    for k, v in (("kill", None), ("chunks", 1), ("yaml", False)):
        if case[k] != v:
            yield {**case, k: v}
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}


def make_config(case):
    from cpd_backflow.configs.h2o import get_config
    c = get_config()
    n = case["n"]
    with c.ignore_type():
        c.system.molecule = MOLS[case["mol"]]
        if case["n_elec"]:
            c.system.n_elec = tuple(case["n_elec"])
        c.evaluate.chunk_size = case["chains"] * case["per"]
    c.system.basis = case["basis"]
    c.system.basis_set = "sto-3g"
    c.system.symmetry = False
    c.model.dtype = case["dtype"]
    c.model.sigma = 0.1
    c.model.restricted, c.model.fixed_magnetization = case["restricted"], case["fixed"]
    c.variational_state.n_samples = 2 * n * case["chains"]
    c.variational_state.n_discard_per_chain = 1
    c.variational_state.seed = case["seed"]
    c.sampler.n_chains_per_rank = case["chains"]
    c.sampler.n_sweeps = 2
    c.evaluate.n_samples = n * case["chains"] * case["per"] * case["chunks"]
    return c


def prelude(r):
    T.prelude(r)
    T.memo_models("cpd_backflow.models",
                  lambda config, *a, **k: repr(plain(config.model.to_dict())) + repr(plain(config.system.to_dict())))


def fast_estimator(rdms):
    """Compile the estimator once instead of interpreting it anew in every run."""
    import jax
    orig = getattr(rdms, "local_en_on_the_fly", None)
    if orig is None or hasattr(orig, "real"):
        return
    fns = {}

    def estimator(n_elecs, logpsi, pars, samples, args, **kw):
        key = (tuple(int(v) for v in n_elecs), logpsi, tuple(sorted(kw.items())))
        if key not in fns:
            fns[key] = jax.jit(lambda p, x, a: orig(key[0], logpsi, p, x, a, **kw))
        return fns[key](pars, samples, args)
    estimator.real = orig
    rdms.local_en_on_the_fly = estimator


SAMPLES = []
_warm = {}


def world(case):
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "cpd_backflow.rdms", "cpd_backflow.corrfunc"), prelude=prelude, key="cpdrdm")
    key = repr([case[k] for k in ("n", "mol", "n_elec", "dtype", "restricted", "fixed", "basis")])
    if key not in _warm:
        T.ready()
        for r in range(n):
            with w.as_rank(r):
                import netket as nk
                cls = nk.vqs.MCState
                if not getattr(cls, "_seen", False):
                    cls._seen = True
                    s0 = cls.sample

                    def sample(self, *a, _s0=s0, **k):
                        out = _s0(self, *a, **k)
                        SAMPLES.append((core.CURRENT.current, np.array(out), T._leaves(self.parameters)))
                        return out
                    cls.sample = sample
                from cpd_backflow import rdms
                fast_estimator(rdms)
        keep = {}
        d = D.Disk()
        d.mkroot()

        def warm(r):
            import jax
            from cpd_backflow.systems import get_system
            from cpd_backflow.models import get_model
            from cpd_backflow.configs.common import resolve
            c = resolve(make_config({**case, "seed": 1}))
            ha = get_system(c, d.root)
            ma = get_model(c, ha.hilbert, ha, d.root)
            if r == 0:
                x = np.array([F.sector(ha.hilbert.size, ha.hilbert._n_elec)[0]], dtype=np.uint8)
                keep["vars"] = ma.init(jax.random.PRNGKey(3), x)
                keep["apply"] = ma.apply
                keep["L"], keep["ne"] = ha.hilbert.size, tuple(int(v) for v in ha.hilbert._n_elec)
            return True
        sim = core.Sim(n, seed=1, world=w, policy="roundrobin")
        try:
            with D.use(d), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                out = sim.run(warm)
        finally:
            d.remove()
        if any(o[0] != "ok" for o in out):
            raise core.HarnessError("setting up the model failed: "
                                    f"{[core.label_of(o[1]) for o in out if o[0] == 'exc']}")
        _warm[key] = keep
    return w, _warm[key]


def sym1(a):
    return (a + a.T) / 2


def sym2(a):
    a = a + a.transpose(1, 0, 2, 3)
    a = a + a.transpose(0, 1, 3, 2)
    return (a + a.transpose(2, 3, 0, 1)) / 8


def expected(keep, params, X):
    """Averages of the local estimators of <E_pq> and <p+ r+ s q> over the configurations X."""
    L, ne = keep["L"], keep["ne"]
    st, E = F.excitations(L, ne)
    R = ref.Ref(F.Sector(st), None, keep["apply"], H=np.eye(len(st)))
    lp = R.logpsi(params)
    ids = R.ids(X)
    wt = np.bincount(ids, minlength=len(st)) / len(ids)
    used = np.nonzero(wt)[0]
    # row vector sum_x w(x) <x| / psi(x), applied to the operators from the left
    with np.errstate(all="ignore"):
        ratio = np.exp(lp[None, :] - lp[used, None])
    one = np.zeros((L, L), complex)
    two = np.zeros((L, L, L, L), complex)
    for p in range(L):
        for q in range(L):
            A = E[p][q][used]
            one[p, q] = np.sum(wt[used, None] * A * ratio)
            for r in range(L):
                for s in range(L):
                    B = A @ E[r][s]
                    if q == r:
                        B = B - E[p][s][used]
                    two[p, q, r, s] = np.sum(wt[used, None] * B * ratio)
    return one, two


def run_case(case):
    res = Result()
    chem.install()
    chem.FORCE_BASIS = None
    chem.GAUGE = 0
    n = case["n"]
    w, keep = world(case)
    d = D.Disk()
    d.mkroot()
    wd = os.path.join(d.root, "work")
    os.makedirs(wd)
    T.VALUES["workdir"] = wd
    try:
        with w.as_rank(0):
            from cpd_backflow.utils import save_best_params, save_config
            from cpd_backflow.configs.common import resolve
            params = F.reseed(keep["vars"]["params"], case["seed"], case["scale"])
            import jax
            params = jax.tree_util.tree_map(lambda a, b: a + b, params, keep["vars"]["params"])
            save_best_params(wd, {"Energy": -1.0, "Variance": 0.5, "Parameters": params})
            if case["yaml"]:
                # the configuration of the training run, as that run stored it
                save_config(wd, make_config(case).copy_and_resolve_references())
        for k, kill in enumerate([case["kill"], None] if case["kill"] else [None]):
            confs = {}

            def config(r):
                if case["yaml"]:
                    return None
                if r not in confs:
                    confs[r] = make_config(case)
                return confs[r]
            T.VALUES["config"] = config
            SAMPLES.clear()
            d.next_run([])

            def prog(r):
                from cpd_backflow import rdms
                rdms.main(["rdms.py"])
                return True
            with D.use(d), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                sim, out = C.run_job(case, n, prog, res, world=w, faults=[kill] if kill else (), salt=k)
            d.close()
            if res.violation:
                return res
        if any(o[0] != "ok" for o in out):
            return res.bad("not-finished", f"outcome {[o[0] for o in out]} without any fault")
        rec = [s for s in SAMPLES]
        best = T._leaves(params)
        for r, x, p in rec:
            if not T.same(p, best):
                return res.bad("wrong-parameters", f"rank {r} samples other parameters than the recorded best")
        # every rank drew the same number of batches
        L = keep["L"]
        X = np.concatenate([x.reshape(-1, L) for _, x, _ in rec]).astype(int)
        want = n * case["chains"] * case["per"] * case["chunks"]
        if len(X) != want:
            return res.bad("sample-count", f"{len(X)} samples instead of the configured {want}")
        with w.as_rank(0):
            one, two = expected(keep, params, X)
        try:
            r1 = np.load(os.path.join(wd, "rdm_1.npy"))
            r2 = np.load(os.path.join(wd, "rdm_2.npy"))
        except Exception as e:  # noqa: BLE001
            return res.bad("unreadable", core.label_of(e).replace(d.root, "<dir>"))
        for what, a, b in (("rdm_1", sym1(r1), sym1(one)), ("rdm_2", sym2(r2), sym2(two))):
            if C.differs(a, b, 1e-6):
                return res.bad(f"{what}", f"{what}.npy deviates from the average over the "
                                          f"{want} samples of {n} ranks by {C.err(a, b):.3g}")
        # spin correlations from the files: <S_a S_b>/3, which is <Sz_a Sz_b> in a singlet
        with w.as_rank(0):
            from cpd_backflow.corrfunc import get_correlations
            g = np.asarray(get_correlations(wd))
        two = (two + two.transpose(2, 3, 0, 1)) / 2
        want_c = -np.einsum("abba->ab", two) / 6 - np.einsum("aabb->ab", two) / 12 + np.diag(np.diag(one)) / 4
        if C.differs((g + g.T) / 2, want_c.real, 1e-6):
            return res.bad("correlations", f"spin correlations from the files deviate by {C.err((g + g.T) / 2, want_c.real):.3g}")
        res.note((C.h(X), C.h(r1, sym2(r2))))
        res.probe(f"{n} ranks, {case['chunks']} chunks")
        if len({tuple(x) for x in X}) > 1:
            res.key = C.h(X) + f"{n}-{case['chunks']}"
    finally:
        SAMPLES.clear()
        d.remove()
    return res
