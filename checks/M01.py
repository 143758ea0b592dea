"""M01: chains of the fast-update Metropolis sampler against a step-by-step reference."""
from __future__ import annotations

import math

import numpy as np

from . import common as C, fermi as F
from simlib import core
from simlib.runner import Result

PROPERTY = "M01"
RULE = "nontrivial: moves were both accepted and rejected; keyed by the visited configurations"
REAL = ["GPSKet MetropolisFastSampler, hopping / exchange rules, models with incremental updates",
        "netket sampler base class and MCState"]
STUB = ["MPI (simulated ranks)", "uniform draws are the real ones, recorded on the way"]
BUDGET = {"quick": (30, 6, 110), "thorough": (400, 12, 1500)}
ASSUMPTIONS = ["draws within 1e-6 of the acceptance ratio may go either way (rounding)"]
FERM = ("qgps", "slater", "slater-ot", "cpd", "backflow", "slaterqgps", "cpd-gen", "slater-gen", "cpd-unres",
        "slater-multi")
SPIN = ("qgps-spin", "qgps-symflip", "plaq", "arfull-con", "arfull-list")
ORDER = ("cpd", "qgps-spin", "slater", "slaterqgps", "backflow", "qgps", "plaq", "slater-ot", "cpd-gen",
         "arfull-con", "slater-gen", "cpd-unres", "slater-multi", "qgps-symflip", "arfull-list")

_rec = {}          # rank -> list of events of the running job


def gen_block(rng, b):
    name = ORDER[b % len(ORDER)]
    L = 4 if name in SPIN else rng.choice([4, 5])
    ne = rng.choice([(1, 1), (2, 1), (2, 2), (1, 2), (3, 2)])
    return {"model": name, "L": L, "ne": [min(e, L - 1) for e in ne], "n": rng.choice([1, 1, 1, 2, 3]),
            "chains": rng.choice([1, 2, 3, 5]), "sweep": rng.choice([1, 4, 9]), "pow": rng.choice([2, 2, 1]),
            "hop": rng.choice([1.0, 0.5, 0.7]), "trans": rng.choice([False, False, True])}


def gen_case(blk, rng, i):
    ops = [rng.choice(["sample", "sample", "params", "reset", "expect"]) for _ in range(rng.randint(1, 4))]
    return {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6), "scale": rng.choice([0.1, 0.4]),
            "mag": rng.choice([1.0, 1.0, 0.01, 40.0]), "len": rng.choice([3, 5]), "discard": rng.choice([0, 2]), "ops": ops}


def shrink(case):
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}
    if case["discard"]:
        yield {**case, "discard": 0}
    if case["trans"]:
        yield {**case, "trans": False}
    if case["mag"] != 1.0:
        yield {**case, "mag": 1.0}


def build(case, r):
    """Sampler with a recording rule, and the model; kept for the compiled functions."""
    def make():
        import jax
        import jax.numpy as jnp
        import netket as nk
        import GPSKet
        from jax.experimental import io_callback
        from . import M03
        name, L = case["model"], case["L"]
        if name in SPIN:
            hi = nk.hilbert.Spin(0.5, N=L, total_sz=0, inverted_ordering=True)
            sub = {**case, "model": name}
            ma = M03.build_model(sub, hi)
            from GPSKet.sampler.metropolis_fast import MetropolisFastExchange
            sa = MetropolisFastExchange(hi, graph=nk.graph.Chain(L), d_max=2, n_chains_per_rank=case["chains"],
                                        sweep_size=case["sweep"], machine_pow=case["pow"])
        else:
            hi = GPSKet.hilbert.FermionicDiscreteHilbert(L, n_elec=tuple(case["ne"]))
            ma = F.model(name, hi, True)
            kw = {"hop_probability": case["hop"]}
            if case["trans"]:
                t = np.random.RandomState(3).rand(L, L)
                kw["transition_probs"] = jnp.asarray(t + t.T)
            sa = GPSKet.sampler.MetropolisFastHopping(hi, n_chains_per_rank=case["chains"],
                                                      sweep_size=case["sweep"], machine_pow=case["pow"], **kw)
        inner = type(sa.rule)

        def record(kind):
            def f(*a):
                _rec[r].append((kind,) + tuple(np.array(x) for x in a))
            return f

        def transition(rule, sampler, machine, parameters, state, key, x):
            out = inner.transition(rule, sampler, machine, parameters, state, key, x)
            io_callback(record("move"), None, x, out[0], out[2], ordered=True)
            return out

        spy = type("Recorded" + inner.__name__, (inner,), {"transition": transition})
        rule = object.__new__(spy)
        for k, v in sa.rule.__dict__.items():
            object.__setattr__(rule, k, v)
        sa = type(sa)(hi, rule, n_chains_per_rank=case["chains"], sweep_size=case["sweep"],
                      machine_pow=case["pow"], dtype=sa.dtype)
        full = jax.jit(lambda v, x: ma.apply(v, x))
        return hi, ma, sa, full
    return C.memo(("M01", r, case["n"], case["model"], case["L"], tuple(case["ne"]), case["chains"], case["sweep"],
                   case["pow"], case["hop"], case["trans"]), make)


_chains = [0]


def _record(u):
    _rec.setdefault(core.CURRENT.current if core.CURRENT is not None else None, []).append(("uniform", np.array(u)))


def watch_uniform():
    """Record draws of one number per chain, for the rank which is running (jax is shared by the ranks)."""
    import jax
    from jax.experimental import io_callback
    real = jax.random.uniform
    if hasattr(real, "watched"):
        return

    def uniform(key, shape=(), *a, **k):
        u = real(key, shape, *a, **k)
        if np.shape(shape) == (1,) and tuple(shape) == (_chains[0],) and not a and not k:
            io_callback(_record, None, u, ordered=True)
        return u
    uniform.watched = True
    jax.random.uniform = uniform


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    watch_uniform()
    _chains[0] = case["chains"]
    for r in range(n):
        _rec[r] = []

    def prog(r):
        import jax
        import jax.numpy as jnp
        import netket as nk
        hi, ma, sa, full = build(case, r)
        out = []
        ev = _rec[r]
        vs = nk.vqs.MCState(sa, ma, n_samples_per_rank=case["chains"] * case["len"],
                            n_discard_per_chain=case["discard"], seed=case["seed"],
                            sampler_seed=case["seed"] + 1)
        base = vs.parameters
        def params(k):
            return jax.tree_util.tree_map(lambda x: x * case["mag"], F.reseed(base, case["seed"] + k, case["scale"]))
        vs.parameters = params(0)
        acc0 = stp0 = 0
        for j, op in enumerate(["sample"] + case["ops"]):
            ev.clear()
            if op == "params":
                vs.parameters = params(7 * j + 1)
            elif op == "reset":
                vs.reset()
            s = np.array(vs.sample() if op != "expect" else vs.samples)
            jax.effects_barrier()
            st = vs.sampler_state
            out.append({"op": op, "samples": s, "events": list(ev), "acc": int(st.n_accepted),
                        "steps": int(st.n_steps), "sigma": np.array(st.σ),
                        "vars": {"params": vs.parameters, **vs.model_state}, "full": full})
        return out

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    return check(case, res, C.values(out))


def check(case, res, obs):
    n, ch = case["n"], case["chains"]
    acc_tot = rej_tot = 0
    z_sum = z_var = 0.0
    exact = 0
    pairs = {}
    for j in range(len(obs[0])):
        acc_all = steps_all = 0
        for r in range(n):
            o = obs[r][j]
            moves = [e for e in o["events"] if e[0] == "move"]
            unis = [e for e in o["events"] if e[0] == "uniform"]
            tag = f"{case['model']} rank {r} call {j} ({o['op']})"
            if not moves:
                if o["op"] in ("expect",):
                    continue
                res.bad("no-moves", f"{tag}: sampling made no moves")
                return res
            if len(moves) % case["sweep"]:
                res.bad("sweep", f"{tag}: {len(moves)} moves are not whole sweeps of {case['sweep']}")
            w = None
            # from scratch amplitudes of everything seen
            confs = np.unique(np.concatenate([m[1] for m in moves] + [m[2] for m in moves] + [o["sigma"]]), axis=0)
            with_rank = C.get_world(n)
            with with_rank.as_rank(r):
                import jax.numpy as jnp
                pad = -len(confs) % 16
                xx = np.concatenate([confs, np.repeat(confs[:1], pad, axis=0)])
                la = np.concatenate([np.asarray(o["full"](o["vars"], jnp.asarray(xx[i:i + 16])))
                                     for i in range(0, len(xx), 16)])[:len(confs)]
            logp = {c.tobytes(): case["pow"] * float(a.real) for c, a in zip(confs, la)}
            nacc = 0
            for t, m in enumerate(moves):
                cur, prop, sites = m[1], m[2], m[3]
                if case["model"] in SPIN:
                    for q in np.sort(np.asarray(sites), axis=-1):
                        pairs[tuple(q.tolist())] = pairs.get(tuple(q.tolist()), 0) + 1
                nxt = moves[t + 1][1] if t + 1 < len(moves) else o["sigma"]
                for c in range(ch):
                    d = logp[prop[c].tobytes()] - logp[cur[c].tobytes()]
                    ratio = math.exp(min(d, 700.0)) if d == d else float("nan")
                    moved = not np.array_equal(prop[c], cur[c])
                    stay = np.array_equal(nxt[c], cur[c])
                    went = np.array_equal(nxt[c], prop[c])
                    if not (stay or went):
                        res.bad("trajectory", f"{tag} move {t} chain {c}: from {cur[c]} proposal {prop[c]} the "
                                              f"chain continued at {nxt[c]}")
                        return res
                    u = float(unis[t][1][c]) if len(unis) == len(moves) else None
                    if u is not None:
                        exact += 1
                        yes = u < ratio
                        nacc += yes if abs(u - ratio) > 1e-6 else 0
                        if abs(u - ratio) <= 1e-6:
                            nacc = float("nan")
                        elif moved and yes != went:
                            res.bad("decision", f"{tag} move {t} chain {c}: {cur[c]} -> {prop[c]} has ratio "
                                                f"{ratio:.9g}, draw {u:.9g}, but was "
                                                f"{'accepted' if went else 'rejected'}")
                            return res
                    else:
                        nacc = float("nan")
                    if moved:
                        p = min(1.0, ratio)
                        z_sum += went - p
                        z_var += p * (1 - p)
                        acc_tot += went
                        rej_tot += stay
            # every sample handed out is a visited configuration, in order
            nsw = len(moves) // case["sweep"]
            states = [moves[(k + 1) * case["sweep"]][1] if (k + 1) * case["sweep"] < len(moves) else o["sigma"]
                      for k in range(nsw)]
            s = o["samples"]
            if s.shape[1] != min(nsw, case["len"]) and s.shape[1] > nsw:
                res.bad("samples", f"{tag}: {s.shape[1]} samples per chain from {nsw} sweeps")
                return res
            tail = np.stack(states[nsw - s.shape[1]:], axis=1)
            if not np.array_equal(tail, s):
                res.bad("samples", f"{tag}: the samples are not the configurations visited after each sweep")
                return res
            if n > 1 and r and np.array_equal(o["samples"], obs[0][j]["samples"]) and rej_tot + acc_tot > 40 * n:
                res.probe("equal samples on two ranks")
            acc_all += nacc
            steps_all += len(moves) * ch
            res.note(C.h(s))
        if steps_all:
            # counts are since the last reset of the sampler (each sampling call resets)
            for r in range(n):
                o = obs[r][j]
                if o["steps"] != steps_all:
                    res.bad("counts", f"rank {r} call {j}: {o['steps']} steps counted, {steps_all} made")
                if acc_all == acc_all and o["acc"] != acc_all:
                    res.bad("counts", f"rank {r} call {j}: {o['acc']} accepted moves counted, {acc_all} made")
    if z_var > 5 and abs(z_sum) > 7.5 * math.sqrt(z_var) + 3:
        res.bad("acceptance", f"accepted moves deviate by {z_sum:.1f} from the expected number "
                              f"(standard deviation {math.sqrt(z_var):.1f})")
    if case["model"] in SPIN:
        # exchanges between sites at most two bonds apart on the chain, all equally likely
        L = case["L"]
        want = sorted({tuple(sorted((i, (i + d) % L))) for i in range(L) for d in (1, 2)})
        N = sum(pairs.values())
        if set(pairs) - set(want):
            res.bad("exchange", f"{case['model']}: exchange of {sorted(set(pairs) - set(want))[0]} proposed")
        elif N >= 10 * len(want):
            from scipy.stats import chi2
            e = N / len(want)
            stat = sum((pairs.get(q, 0) - e) ** 2 / e for q in want)
            res.probe("exchange frequencies")
            if chi2.sf(stat, len(want) - 1) < 1e-11:
                res.bad("exchange", f"{case['model']}: pairs proposed {pairs} times, not equally often")
    res.probe(case["model"])
    res.probe("moves accepted", acc_tot)
    res.probe("moves rejected", rej_tot)
    res.probe("decisions checked against the draw", exact)
    res.samples = {"accepted": int(acc_tot), "rejected": int(rej_tot)}
    if acc_tot and rej_tot:
        res.key = res.digest
    return res
