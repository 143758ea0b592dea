"""Per-rank copies of the code under test.

netket and GPSKet read the rank and the number of ranks into module-level
constants (and bake them into compiled functions) at import time, as they would
in one OS process per rank.  A World(n) therefore imports netket, GPSKet and any
further named packages once per rank, each copy seeing its own communicator, and
swaps the copies in sys.modules when the scheduler switches ranks.
"""
from __future__ import annotations

import contextlib
import importlib
import os
import sys

from . import mpi as simmpi

ROOTS = ("netket", "GPSKet", "netket_checkpoint", "argps", "cpd_backflow")


def _owned(name):
    return name.split(".")[0] in ROOTS


def setup_env():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("NETKET_EXPERIMENTAL_SHARDING", "0")
    os.environ["NETKET_MPI_WARNING"] = "0"
    os.environ.setdefault("FLAX_RETURN_FROZENDICT", "1")
    os.environ["MPI4JAX_NO_WARN_JAX_VERSION"] = "1"
    for k, v in (("OMPI_MCA_ess_singleton_isolated", "1"), ("OMPI_MCA_btl", "self"),
                 ("OMPI_MCA_pml", "ob1"), ("OMPI_ALLOW_RUN_AS_ROOT", "1"),
                 ("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1"), ("OMP_NUM_THREADS", "1"),
                 ("OPENBLAS_NUM_THREADS", "1"), ("MKL_NUM_THREADS", "1")):
        os.environ[k] = v
    fl = os.environ.get("XLA_FLAGS", "")
    for f in ("--xla_cpu_multi_thread_eigen=false", "--xla_cpu_use_thunk_runtime=false",
              "--xla_backend_optimization_level=0", "--xla_llvm_disable_expensive_passes=true"):
        if f not in fl:
            fl += " " + f
    os.environ["XLA_FLAGS"] = fl.strip()
    sys.dont_write_bytecode = True


class World:
    def __init__(self, n, packages=("netket", "GPSKet"), prelude=None):
        setup_env()
        import jax
        jax.config.update("jax_cpu_enable_async_dispatch", False)
        jax.config.update("jax_enable_x64", True)
        simmpi.install()
        self.n = n
        self.sets = []
        self.installed = None
        repo = os.environ.get("GPSKET_REPO", "/repo")
        for p in (repo, repo + "/scripts/ARGPS", repo + "/scripts/cpd-backflow"):
            if p not in sys.path:
                sys.path.insert(0, p)
        self.base = {k: v for k, v in sys.modules.items() if _owned(k)}
        for k in self.base:
            del sys.modules[k]
        self.base = {}
        for r in range(n):
            self._import(r, packages, prelude)

    def _import(self, r, packages, prelude):
        comm = simmpi.world_comm(r, self.n)
        saved = simmpi.MPI.COMM_WORLD
        simmpi.MPI.COMM_WORLD = comm
        try:
            if prelude is not None:
                prelude(r)
            for p in packages:
                importlib.import_module(p)
            mods = {k: v for k, v in sys.modules.items() if _owned(k)}
        finally:
            simmpi.MPI.COMM_WORLD = saved
            for k in [k for k in sys.modules if _owned(k)]:
                del sys.modules[k]
        self.sets.append((mods, comm))

    def _take_out(self):
        mods, _ = self.sets[self.installed]
        if len(sys.modules) != self._size:
            # remember modules imported lazily by the rank that ran last
            for k in [k for k in sys.modules if _owned(k)]:
                mods[k] = sys.modules[k]
        for k in mods:
            sys.modules.pop(k, None)
        self.installed = None

    def install(self, r):
        if self.installed == r:
            return
        if self.installed is not None:
            self._take_out()
        mods, comm = self.sets[r]
        sys.modules.update(mods)
        self._size = len(sys.modules)
        simmpi.MPI.COMM_WORLD = comm
        self.installed = r

    @contextlib.contextmanager
    def as_rank(self, r):
        """Run harness code with the modules of rank r (outside of a simulation)."""
        self.install(r)
        try:
            yield
        finally:
            self.uninstall()

    def uninstall(self):
        if self.installed is not None:
            self._take_out()
