"""Simulated MPI: the seam under netket / GPSKet.

The real mpi4jax Python layer (primitives, abstract evaluation, batching, AD)
and the real netket.utils.mpi run on top of a `SimComm`, a subclass of mpi4py's
Intracomm whose collectives are matched by the simulator, and of replaced CPU
lowerings of the mpi4jax primitives which call back into the simulator.
"""
from __future__ import annotations

import functools
import hashlib
import operator
import pickle

import numpy as np

from . import core
from .core import HarnessError

_installed = False
MPI = None
mpi4jax = None


def _sim():
    s = core.CURRENT
    if s is None or s.current is None:
        raise HarnessError("MPI operation outside of a simulated run")
    return s


class _Pending:
    __slots__ = ("arrived", "result", "taken", "sig")

    def __init__(self):
        self.arrived = {}
        self.result = None
        self.taken = 0
        self.sig = None


def _describe(kind, meta):
    return f"{kind}{meta}"


def collective(commid, kind, payload, meta, root=None, op=None):
    """One collective on communicator `commid` by the running rank.

    meta: hashable signature that has to agree on all ranks.
    payload: this rank's contribution.
    Returns the list of contributions (index = rank) once this rank may proceed
    (None entries where this rank's result does not need them).
    """
    sim = _sim()
    r = sim.current
    n = sim.n
    k = sim.opcount.get((commid, r), 0)
    sim.opcount[(commid, r)] = k + 1
    key = (commid, k)
    p = sim.collectives.get(key)
    if p is None:
        p = sim.collectives[key] = _Pending()
    sig = (kind, meta, root, op)
    label = f"{commid}#{k}:{kind}{meta}"
    if n == 1:
        sim.emit("op", r, label)
        sim.count("collectives")
        return [payload]
    if p.sig is None:
        p.sig = (r, sig)
    elif p.sig[1] != sig:
        sim.fail("collective-mismatch",
                 f"operation {k} on communicator {commid}: rank {p.sig[0]} calls "
                 f"{p.sig[1]}, rank {r} calls {sig}")
    sim.emit("op", r, label)
    sim.count("collectives")
    # post the contribution when scheduled (a stalled rank posts late)
    sim.yield_point("enter " + label)
    p.arrived[r] = payload
    if root is not None and sim.eager:
        if kind in ("bcast", "scatter"):
            ready = (lambda: True) if r == root else (lambda: root in p.arrived)
        else:  # gather, reduce: contributions are buffered
            ready = (lambda: len(p.arrived) == n) if r == root else (lambda: True)
    else:
        ready = lambda: len(p.arrived) == n  # noqa: E731
    sim.yield_point("wait " + label, waiting=ready)
    if len(p.arrived) < n:
        sim.fire("collective left before all ranks arrived")
    out = [p.arrived.get(i) for i in range(n)]
    p.taken += 1
    if p.taken == n:
        del sim.collectives[key]
    return out


def reduce_list(sim, vals, fn, key):
    """Combine contributions in a seeded association order, the same for all ranks."""
    n = len(vals)
    order = list(range(n))
    if sim.reorder_reductions:
        rng = np.random.RandomState(
            int(hashlib.sha256(f"{sim.seed}|{key}".encode()).hexdigest()[:8], 16))
        rng.shuffle(order)
        if n > 2 and order != sorted(order) and order != sorted(order, reverse=True):
            sim.fire("reduction reordered")
    acc = vals[order[0]]
    for i in order[1:]:
        acc = fn(acc, vals[i])
    return acc


_NPOPS = {
    "SUM": np.add, "PROD": np.multiply, "MAX": np.maximum, "MIN": np.minimum,
    "LAND": np.logical_and, "LOR": np.logical_or,
    "BAND": np.bitwise_and, "BOR": np.bitwise_or,
}
_PYOPS = {
    "SUM": operator.add, "PROD": operator.mul, "MAX": max, "MIN": min,
    "LAND": lambda a, b: bool(a) and bool(b), "LOR": lambda a, b: bool(a) or bool(b),
    "BAND": operator.and_, "BOR": operator.or_,
}


def opname(op):
    for name in _NPOPS:
        if op == getattr(MPI, name):
            return name
    raise HarnessError(f"unsupported MPI op {op}")


def arr_meta(a):
    return (tuple(a.shape), str(a.dtype))


def np_allreduce(commid, x, op):
    x = np.array(x, copy=True)
    name = opname(op)
    sim = _sim()
    k = sim.opcount.get((commid, sim.current), 0)
    vals = collective(commid, "allreduce", x, arr_meta(x), op=name)
    f = _NPOPS[name]
    out = reduce_list(sim, vals, lambda a, b: np.asarray(f(a, b)).astype(x.dtype, copy=False),
                      (commid, k))
    return np.array(out, dtype=x.dtype).reshape(x.shape)


def py_allreduce(commid, x, op):
    name = opname(op)
    sim = _sim()
    k = sim.opcount.get((commid, sim.current), 0)
    x = pickle.loads(pickle.dumps(x))
    vals = collective(commid, "allreduce_obj", x, (), op=name)
    return reduce_list(sim, vals, _PYOPS[name], (commid, k))


def _buf(b):
    """Flat view, in memory order, of an mpi4py buffer specification."""
    if isinstance(b, (list, tuple)):
        b = b[0]
    a = np.asarray(b)
    if a.flags.c_contiguous:
        return a.reshape(-1)
    if a.flags.f_contiguous:
        return a.T.reshape(-1)
    raise ValueError("ndarray is not contiguous")


def install():
    """Patch mpi4py and mpi4jax (idempotent). Call before importing netket."""
    global _installed, MPI, mpi4jax, SimComm
    if _installed:
        return
    _installed = True
    from mpi4py import MPI as _MPI
    MPI = _MPI
    real_self = _MPI.COMM_SELF

    class SimComm(_MPI.Intracomm):
        def __new__(cls, commid, rank, size):
            c = super().__new__(cls, real_self.Dup())
            return c

        def __init__(self, commid, rank, size):
            self.simid = commid
            self._rank = rank
            self._size = size
            self._children = 0

        # -- topology
        def Get_rank(self):
            return self._rank

        def Get_size(self):
            return self._size

        @property
        def rank(self):
            return self._rank

        @property
        def size(self):
            return self._size

        def _child(self):
            self._children += 1
            return SimComm(f"{self.simid}.{self._children}", self._rank, self._size)

        def Create(self, group):
            return self._child()

        def Dup(self, info=None):
            return self._child()

        Clone = Dup
        dup = Dup

        def Free(self):
            return None

        def Abort(self, errorcode=0):
            raise RuntimeError(f"MPI Abort({errorcode})")

        # -- collectives on Python objects
        def barrier(self):
            collective(self.simid, "barrier", None, ())

        Barrier = barrier

        def bcast(self, obj, root=0):
            data = pickle.dumps(obj) if self._rank == root else None
            out = collective(self.simid, "bcast", data, ("obj",), root=root)
            return obj if self._rank == root else pickle.loads(out[root])

        def gather(self, obj, root=0):
            out = collective(self.simid, "gather", pickle.dumps(obj), ("obj",), root=root)
            return [pickle.loads(o) for o in out] if self._rank == root else None

        def allgather(self, obj):
            out = collective(self.simid, "allgather", pickle.dumps(obj), ("obj",))
            return [pickle.loads(o) for o in out]

        def scatter(self, objs, root=0):
            data = [pickle.dumps(o) for o in objs] if self._rank == root else None
            out = collective(self.simid, "scatter", data, ("obj",), root=root)
            return pickle.loads(out[root][self._rank])

        def alltoall(self, objs):
            out = collective(self.simid, "alltoall", [pickle.dumps(o) for o in objs], ("obj",))
            return [pickle.loads(o[self._rank]) for o in out]

        def allreduce(self, obj, op=_MPI.SUM):
            return py_allreduce(self.simid, obj, op)

        def reduce(self, obj, op=_MPI.SUM, root=0):
            name = opname(op)
            sim = _sim()
            k = sim.opcount.get((self.simid, sim.current), 0)
            out = collective(self.simid, "reduce_obj", pickle.dumps(obj), (), root=root, op=name)
            if self._rank != root:
                return None
            return reduce_list(sim, [pickle.loads(o) for o in out], _PYOPS[name],
                               (self.simid, k))

        # -- collectives on buffers
        def Allreduce(self, sendbuf, recvbuf, op=_MPI.SUM):
            out = _buf(recvbuf)
            src = out if (sendbuf is _MPI.IN_PLACE or (isinstance(sendbuf, int) and sendbuf == _MPI.IN_PLACE)) else _buf(sendbuf)
            res = np_allreduce(self.simid, src, op)
            out[...] = res.reshape(out.shape)

        def Bcast(self, buf, root=0):
            b = _buf(buf)
            data = b.copy() if self._rank == root else None
            out = collective(self.simid, "bcast", data, (int(b.size), str(b.dtype)), root=root)
            if self._rank != root:
                b[...] = out[root].reshape(b.shape)

        def Gather(self, sendbuf, recvbuf, root=0):
            s = _buf(sendbuf)
            out = collective(self.simid, "gather", s.copy(), (int(s.size), str(s.dtype)), root=root)
            if self._rank == root:
                r = _buf(recvbuf)
                r[...] = np.concatenate([o.ravel() for o in out]).reshape(r.shape)

        def Allgather(self, sendbuf, recvbuf):
            s = _buf(sendbuf)
            out = collective(self.simid, "allgather", s.copy(), (int(s.size), str(s.dtype)))
            r = _buf(recvbuf)
            r[...] = np.concatenate([o.ravel() for o in out]).reshape(r.shape)

        def Reduce(self, sendbuf, recvbuf, op=_MPI.SUM, root=0):
            s = _buf(recvbuf if sendbuf is _MPI.IN_PLACE else sendbuf)
            name = opname(op)
            sim = _sim()
            k = sim.opcount.get((self.simid, sim.current), 0)
            out = collective(self.simid, "reduce", s.copy(), (int(s.size), str(s.dtype)), root=root, op=name)
            if self._rank == root:
                r = _buf(recvbuf)
                r[...] = reduce_list(sim, out, _NPOPS[name], (self.simid, k)).reshape(r.shape)

        def Scatter(self, sendbuf, recvbuf, root=0):
            r = _buf(recvbuf)
            data = _buf(sendbuf).copy() if self._rank == root else None
            out = collective(self.simid, "scatter", data, (int(r.size), str(r.dtype)), root=root)
            r[...] = out[root].reshape((self._size,) + r.shape)[self._rank]

        # -- point to point (buffered)
        def send(self, obj, dest, tag=0):
            sim = _sim()
            sim.emit("op", self._rank, f"{self.simid}:send->{dest}/{tag}")
            sim.yield_point(f"send->{dest}")
            sim.p2p.setdefault((self.simid, self._rank, dest, tag), []).append(pickle.dumps(obj))

        def recv(self, buf=None, source=0, tag=0, status=None):
            sim = _sim()
            q = sim.p2p.setdefault((self.simid, source, self._rank, tag), [])
            sim.emit("op", self._rank, f"{self.simid}:recv<-{source}/{tag}")
            sim.yield_point(f"recv<-{source}", waiting=lambda: len(q) > 0)
            return pickle.loads(q.pop(0))

        def Send(self, buf, dest, tag=0):
            self.send(_buf(buf).copy(), dest, tag)

        def Recv(self, buf, source=0, tag=0, status=None):
            b = _buf(buf)
            b[...] = self.recv(None, source, tag).reshape(b.shape)

    def _blocked(name):
        def f(self, *a, **k):
            raise HarnessError(f"SimComm.{name} is not simulated")
        return f

    for name in ("Split", "Gatherv", "Allgatherv", "Scatterv", "Alltoall", "Alltoallv",
                 "isend", "irecv", "Isend", "Irecv", "Ibcast", "Iallreduce", "scan",
                 "exscan", "Scan", "sendrecv", "Sendrecv", "Reduce_scatter",
                 "Reduce_scatter_block", "Ibarrier"):
        if name not in SimComm.__dict__:
            setattr(SimComm, name, _blocked(name))

    globals()["SimComm"] = SimComm

    import mpi4jax as _m
    mpi4jax = _m
    from mpi4jax._src import utils as mu
    # identical wrapped objects compare equal, so that eager operations are compiled once
    mu.HashableMPIType.__eq__ = lambda a, b: isinstance(b, mu.HashableMPIType) and a.wrapped is b.wrapped
    _register_lowerings(mu)


def world_comm(rank, size):
    return SimComm("w", rank, size)


def _register_lowerings(mu):
    from jax.interpreters import mlir
    from mpi4jax._src.collective_ops import (allgather, allreduce, alltoall, barrier,
                                             bcast, gather, reduce, scatter)
    unp = mu.unpack_hashable

    def emit(ctx, cb, x, token):
        x_aval = ctx.avals_in[0]
        out_aval = ctx.avals_out[0]

        def wrapped(a):
            return (np.asarray(cb(np.array(a, copy=True)), dtype=out_aval.dtype).reshape(out_aval.shape),)

        res, tok, _ = mlir.emit_python_callback(
            ctx, wrapped, token, [x], [x_aval], [out_aval], has_side_effect=True)
        return [*res, tok]

    def l_allreduce(ctx, x, token, op, comm, transpose):
        if transpose:
            return [x, token]
        op, comm = unp(op), unp(comm)
        return emit(ctx, lambda a: np_allreduce(comm.simid, a, op), x, token)

    def l_allgather(ctx, x, token, comm):
        comm = unp(comm)
        return emit(ctx, lambda a: np.stack(collective(comm.simid, "allgather", a, arr_meta(a))),
                    x, token)

    def l_alltoall(ctx, x, token, comm):
        comm = unp(comm)

        def cb(a):
            out = collective(comm.simid, "alltoall", a, arr_meta(a))
            return np.stack([o[comm.Get_rank()] for o in out])
        return emit(ctx, cb, x, token)

    def l_bcast(ctx, x, token, root, comm):
        comm = unp(comm)
        root = int(root)

        def cb(a):
            out = collective(comm.simid, "bcast", a if comm.Get_rank() == root else None,
                             arr_meta(a), root=root)
            return np.zeros((0,), a.dtype) if comm.Get_rank() == root else out[root]
        return emit(ctx, cb, x, token)

    def l_gather(ctx, x, token, root, comm):
        comm = unp(comm)
        root = int(root)

        def cb(a):
            out = collective(comm.simid, "gather", a, arr_meta(a), root=root)
            return np.stack(out) if comm.Get_rank() == root else np.zeros((0,), a.dtype)
        return emit(ctx, cb, x, token)

    def l_reduce(ctx, x, token, op, root, comm):
        op, comm = unp(op), unp(comm)
        root = int(root)
        name = opname(op)

        def cb(a):
            sim = _sim()
            k = sim.opcount.get((comm.simid, sim.current), 0)
            out = collective(comm.simid, "reduce", a, arr_meta(a), root=root, op=name)
            if comm.Get_rank() != root:
                return np.zeros((0,), a.dtype)
            return reduce_list(sim, out, _NPOPS[name], (comm.simid, k))
        return emit(ctx, cb, x, token)

    def l_scatter(ctx, x, token, root, comm):
        comm = unp(comm)
        root = int(root)

        def cb(a):
            r = comm.Get_rank()
            m = arr_meta(a[0]) if r == root else arr_meta(a)
            out = collective(comm.simid, "scatter", a if r == root else None, m, root=root)
            return out[root][r]
        return emit(ctx, cb, x, token)

    def l_barrier(ctx, token, comm):
        comm = unp(comm)

        def cb():
            collective(comm.simid, "barrier", None, ())
            return ()
        _, tok, _ = mlir.emit_python_callback(ctx, cb, token, [], [], [], has_side_effect=True)
        return [tok]

    reg = functools.partial(mlir.register_lowering, platform="cpu")
    reg(allreduce.mpi_allreduce_p, l_allreduce)
    reg(allgather.mpi_allgather_p, l_allgather)
    reg(alltoall.mpi_alltoall_p, l_alltoall)
    reg(bcast.mpi_bcast_p, l_bcast)
    reg(gather.mpi_gather_p, l_gather)
    reg(reduce.mpi_reduce_p, l_reduce)
    reg(scatter.mpi_scatter_p, l_scatter)
    reg(barrier.mpi_barrier_p, l_barrier)
