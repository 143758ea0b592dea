"""Deterministic scheduler for a simulated SPMD (MPI) job.

Every rank of the job is a real Python thread, but exactly one of them runs at
any time: a rank runs until it reaches an interception point (an MPI operation,
a disk operation, or an explicit yield in a harness), parks there, and the
scheduler decides which parked rank continues.  All decisions come from one
seeded PRNG (or from an explicit decision list when replaying), so one case is
one exactly repeatable execution.
"""
from __future__ import annotations

import hashlib
import random
import sys
import threading
import traceback

import numpy as np

threading.stack_size(256 * 1024 * 1024)

CURRENT = None  # the Sim in whose run() we are; one per process


class SimKilled(BaseException):
    """Raised inside a rank whose simulated process has been killed."""


class SimInterrupt(KeyboardInterrupt):
    """An injected interruption (Ctrl-C / SIGINT) of a rank."""


class HarnessError(Exception):
    """The harness itself is broken: never a property violation."""


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


POLICIES = ("uniform", "roundrobin", "pct", "starve", "burst")


class Scheduler:
    """Decides who runs next; records every decision."""

    def __init__(self, seed=None, policy="uniform", decisions=None, nranks=1):
        self.rng = random.Random(seed)
        self.policy = policy
        self.replay = list(decisions) if decisions is not None else None
        self.decisions = []
        self.nranks = nranks
        self.prio = list(range(nranks))
        self.rng.shuffle(self.prio)
        self.victim = self.rng.randrange(nranks) if nranks else 0
        self.last = None
        self.burst = 0
        self.stalls = 0
        self.preempt = 0

    def pick(self, runnable):
        runnable = sorted(runnable)
        if self.replay is not None:
            i = len(self.decisions)
            want = self.replay[i] if i < len(self.replay) else -1
            if want in runnable:
                r = want
            elif self.last in runnable:
                r = self.last  # default: keep running the same rank
            else:
                r = runnable[0]
        elif len(runnable) == 1:
            r = runnable[0]
        elif self.policy == "roundrobin":
            later = [x for x in runnable if self.last is None or x > self.last]
            r = (later or runnable)[0]
        elif self.policy == "pct":
            if self.rng.random() < 0.02:
                x = self.rng.choice(runnable)
                self.prio[x] = min(self.prio) - 1
            r = max(runnable, key=lambda x: self.prio[x])
        elif self.policy == "starve":
            others = [x for x in runnable if x != self.victim]
            if others and len(others) < len(runnable):
                self.stalls += 1
            r = self.rng.choice(others or runnable)
            if self.rng.random() < 0.01:
                self.victim = self.rng.randrange(self.nranks)
        elif self.policy == "burst":
            if self.burst > 0 and self.last in runnable:
                self.burst -= 1
                r = self.last
            else:
                self.burst = self.rng.randrange(1, 12)
                r = self.rng.choice(runnable)
        else:
            r = self.rng.choice(runnable)
        if self.last is not None and r != self.last and self.last in runnable:
            self.preempt += 1
        self.last = r
        self.decisions.append(r)
        return r


class Rank:
    def __init__(self, sim, r):
        self.sim = sim
        self.r = r
        self.go = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.outcome = None
        self.waiting = None  # predicate; None = runnable
        self.killed = False
        self.pending_exc = None
        self.steps = 0
        self.at = "start"
        self.rng = None
        self.tb = ""


class Sim:
    def __init__(self, nranks, seed=0, policy="uniform", decisions=None,
                 faults=(), world=None, max_steps=200000, record=True):
        self.n = nranks
        self.seed = seed
        self.sched = Scheduler(seed, policy, decisions, nranks)
        # a second stream for reduction orders, torn-write offsets, eager flags
        self.aux = random.Random((seed or 0) * 1000003 + 17)
        self.world = world
        self.faults = [dict(f) for f in faults]
        self.fired = {}
        self.log = []
        self.record = record
        self.step = 0
        self.max_steps = max_steps
        self.ranks = []
        self.current = None
        self.back = threading.Semaphore(0)
        self.collectives = {}
        self.opcount = {}
        self.violation = None
        self.aborting = False
        self.p2p = {}
        self.hooks = []  # called (sim, rank, label) at each interception point
        self.stats = {}
        self.nodefail_at = None
        self.harness_error = None
        self.reorder_reductions = True
        self.eager = self.aux.random() < 0.7

    # -- bookkeeping -------------------------------------------------------
    def emit(self, *ev):
        if self.record:
            self.log.append(ev)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def digest(self):
        h = hashlib.sha256()
        for ev in self.log:
            h.update(repr(ev).encode())
        return h.hexdigest()[:16]

    def interleaving(self):
        """Measure of distinct interleavings: order of (rank, op label) events."""
        h = hashlib.sha256()
        for ev in self.log:
            if ev[0] in ("run", "op"):
                h.update(repr(ev[:3]).encode())
        return h.hexdigest()[:16]

    def fail(self, kind, detail):
        """Record a violation of the distributed protocol and stop the job."""
        if self.violation is None:
            self.violation = (kind, detail)
            self.emit("violation", kind, detail)
        self.aborting = True

    # -- called from rank threads -------------------------------------------
    def yield_point(self, label, waiting=None):
        """Park the calling rank; the scheduler decides when it continues."""
        rk = self.ranks[self.current]
        if rk.killed or self.aborting:
            raise SimKilled()
        rk.steps += 1
        rk.at = label
        rk.waiting = waiting
        self.back.release()
        rk.go.acquire()
        rk.waiting = None
        if rk.killed or self.aborting:
            raise SimKilled()
        if rk.pending_exc is not None:
            e, rk.pending_exc = rk.pending_exc, None
            raise e

    def kill_rank(self, r):
        self.ranks[r].killed = True

    # -- scheduler side ------------------------------------------------------
    def _thread(self, rk, fn):
        rk.go.acquire()
        try:
            if rk.killed or self.aborting:
                raise SimKilled()
            rk.outcome = ("ok", fn(rk.r))
        except SimKilled:
            rk.outcome = ("killed", None)
        except HarnessError as e:
            rk.outcome = ("exc", e)
            self.harness_error = e
        except BaseException as e:  # noqa: BLE001
            if rk.killed or self.aborting:
                rk.outcome = ("killed", None)
            else:
                rk.outcome = ("exc", e)
                rk.tb = traceback.format_exc()
        rk.done = True
        self.back.release()

    def run(self, fn, rank_fns=None):
        global CURRENT
        if CURRENT is not None:
            raise HarnessError("nested simulation")
        CURRENT = self
        self.ranks = [Rank(self, r) for r in range(self.n)]
        try:
            for rk in self.ranks:
                f = rank_fns[rk.r] if rank_fns is not None else fn
                rk.thread = threading.Thread(target=self._thread, args=(rk, f), daemon=True)
                rk.thread.start()
            self._loop()
        finally:
            CURRENT = None
            if self.world is not None:
                self.world.uninstall()
        return [rk.outcome for rk in self.ranks]

    def _resume(self, rk):
        """Let one rank run to its next interception point.

        numpy's and Python's global generators are process-wide in a real job, so
        every rank has its own copy."""
        self.current = rk.r
        if self.world is not None:
            self.world.install(rk.r)
        outer = (np.random.get_state(), random.getstate())
        if rk.rng is None:
            np.random.seed((self.seed * 7919 + rk.r * 104729 + 1) % 2**32)
            random.seed(self.seed * 7919 + rk.r)
        else:
            np.random.set_state(rk.rng[0])
            random.setstate(rk.rng[1])
        rk.go.release()
        self.back.acquire()
        rk.rng = (np.random.get_state(), random.getstate())
        np.random.set_state(outer[0])
        random.setstate(outer[1])
        self.current = None

    def _runnable(self):
        out = []
        for rk in self.ranks:
            if rk.done:
                continue
            if rk.killed or self.aborting or rk.pending_exc is not None:
                out.append(rk.r)
            elif rk.waiting is None or rk.waiting():
                out.append(rk.r)
        return out

    def _apply_faults(self):
        for f in self.faults:
            if f.get("done"):
                continue
            k = f["kind"]
            if k == "kill" and self.step >= f["at"]:
                # one rank dies; mpirun takes the rest of the job down later
                f["done"] = True
                r = f["rank"] % self.n
                if not self.ranks[r].done:
                    self.fire("kill")
                    self.emit("kill", r, self.step)
                    self.kill_rank(r)
                    self.nodefail_at = self.step + f.get("grace", 0)
            elif k == "interrupt" and self.step >= f["at"]:
                # every rank receives the same interruption (Ctrl-C to mpirun)
                f["done"] = True
                live = [rk for rk in self.ranks if not rk.done]
                if live:
                    self.fire("interrupt")
                    self.emit("interrupt", self.step)
                    for rk in live:
                        rk.pending_exc = SimInterrupt("simulated interrupt")
        if self.nodefail_at is not None and self.step >= self.nodefail_at:
            for rk in self.ranks:
                if not rk.done:
                    rk.killed = True

    def _loop(self):
        while True:
            if all(rk.done for rk in self.ranks):
                return
            self._apply_faults()
            if self.harness_error is not None:
                self.aborting = True
            runnable = self._runnable()
            if not runnable:
                dead = [rk.r for rk in self.ranks if rk.killed]
                if dead:
                    # survivors wait for a dead rank: the launcher kills the job
                    for rk in self.ranks:
                        rk.killed = True
                    continue
                st = {rk.r: ("finished" if rk.done else rk.at) for rk in self.ranks}
                failed = [(rk.r, rk.outcome[1]) for rk in self.ranks
                          if rk.done and rk.outcome[0] == "exc"]
                if failed:
                    # a rank raised while others wait in a collective
                    self.emit("deadlock-after-exception", tuple(sorted(st.items())))
                    self.aborting = True
                    continue
                self.fail("deadlock", f"no rank can proceed: {st}")
                continue
            r = self.sched.pick(runnable)
            self.step += 1
            if self.step > self.max_steps:
                self.fail("no-progress", f"more than {self.max_steps} steps")
            rk = self.ranks[r]
            self.emit("run", r, rk.at)
            self._resume(rk)


def label_of(exc):
    return f"{type(exc).__name__}: {exc}"
