"""M04: direct sampling of autoregressive models against exact distributions."""
from __future__ import annotations

import numpy as np

from . import common as C, fermi as F
from simlib import core
from simlib.runner import Result

PROPERTY = "M04"
RULE = "nontrivial: at least two different configurations drawn; keyed by the drawn configurations"
REAL = ["GPSKet ARDirectSampler, autoregressive models and their sampling caches", "argps fermionic constraints",
        "netket MCState"]
STUB = ["MPI (simulated ranks)", "uniform draws are the real ones, recorded on the way"]
BUDGET = {"quick": (48, 6, 130), "thorough": (500, 10, 1500)}
ASSUMPTIONS = ["frequencies are compared by a chi-square test at probability 1e-11; where the uniform draws of the "
               "sampler are seen one per site and configuration, every drawn value is also compared exactly",
               "the supplied symmetry operations form a group"]
MODELS = ("ar", "ar-real", "ar-sym", "ar-con", "arfull", "arfull-list", "arfull-sym", "arfull-con", "arplaq",
          "arplaq-con", "ferm", "ferm-list", "ar-modphase", "arfull-consym", "ar-pow1", "arplaq-sym", "arfull-modphase",
          "ar-unnorm", "arfull-unnorm-con", "pixel-pow1", "pixel-con", "pixel-k5",
          "arplaq-pow1", "arfull-pow1")
_rec = {}


def gen_block(rng, b):
    name = MODELS[b % len(MODELS)]
    L = rng.choice([3, 4]) if name.startswith("ferm") else rng.choice([4, 6])
    if name.startswith("pixel"):
        L = 4 if "con" in name else 9
    ne = rng.choice([(1, 1), (2, 1), (2, 2), (1, 2), (3, 1), (1, 3), (2, 0)])
    return {"model": name, "L": L, "ne": [min(e, L) for e in ne], "n": rng.choice([1, 1, 2, 3]),
            "chains": 1, "per": rng.choice([64, 256])}


def gen_case(blk, rng, i):
    ops = [rng.choice(["sample", "reset", "params", "sample", "longer", "single"]) for _ in range(rng.randint(2, 4))]
    return {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6), "scale": rng.choice([0.1, 0.5, 1.0]),
            "ops": ops}


def shrink(case):
    for i in range(len(case["ops"])):
        yield {**case, "ops": case["ops"][:i] + case["ops"][i + 1:]}
    if case["n"] > 1:
        yield {**case, "n": case["n"] - 1}
    if case["chains"] > 1:
        yield {**case, "chains": 1}


def build(case, r):
    def make():
        import jax
        import jax.numpy as jnp
        import netket as nk
        import GPSKet
        from netket.utils import HashableArray
        m = GPSKet.models
        name, L = case["model"], case["L"]
        kw = {"dtype": jnp.float64 if ("real" in name or "modphase" in name) else jnp.complex128}
        if name.startswith("ferm"):
            import argps.models as am
            hi = GPSKet.hilbert.FermionicDiscreteHilbert(L, n_elec=tuple(case["ne"]))
            kw.update(count_spins=am.count_spins_fermionic, renormalize_log_psi=am.renormalize_log_psi_fermionic)
            states = np.array(F.sector(L, case["ne"]), dtype=np.uint8)
        else:
            con = "con" in name and not name.startswith("pixel")
            hi = nk.hilbert.Spin(0.5, N=L, total_sz=0 if con else None, inverted_ordering=True)
            states = np.asarray(hi.all_states())
        full = name.startswith("arfull") or name.startswith("ferm")
        ident = lambda x: jnp.expand_dims(x, axis=-1)
        T = 1
        syms = ident
        if "sym" in name:
            tr = np.array([[(i + t) % L for t in range(L)] for i in range(L)])
            syms = lambda x: jnp.take(x, tr, axis=-1)
            T = L
        if name.startswith("ar") and "pow1" in name:
            kw["machine_pow"] = 1
        if full:
            M = HashableArray(np.array([1 + (i % 3) for i in range(L)])) if "list" in name else 2
            cls = m.ARqGPSModPhaseFull if "modphase" in name else m.ARqGPSFull
            inv = m.no_syms()[1]
            kw["apply_fast_update"] = False
            mk = lambda s: cls(hi, M, apply_symmetries=s if T > 1 else (s, inv), **kw)
            if "modphase" in name:
                kw["init_fun"] = C.memo("M04init", lambda: jax.nn.initializers.normal(1.0))
        elif name.startswith("pixel"):
            kw = {"param_dtype": kw["dtype"], "n_channels": 3, "depth": 2, "kernel_size": 5 if "k5" in name else 3,
                  "machine_pow": 1 if "pow1" in name else 2}
            if "con" in name:
                def counts(x):  # electrons of either kind on the sites before
                    hot = jnp.stack([x == v for v in hi.local_states], axis=-1).astype(jnp.int32)
                    return jnp.cumsum(hot, axis=1) - hot
                kw["gauge_fn"], kw["constraint_fn"] = counts, lambda g: g >= L // 2
            mk = lambda s: m.PixelCNN(hi, **kw)
        elif name.startswith("arplaq"):
            from scipy.linalg import circulant
            pl = circulant(np.arange(L))
            masks = np.where(pl >= np.repeat([np.arange(L)], L, axis=0).T, 0, 1)
            mk = lambda s: m.ARPlaquetteqGPS(hi, 2, HashableArray(pl), HashableArray(masks), apply_symmetries=s, **kw)
        else:
            cls = m.ARqGPSModPhase if "modphase" in name else m.ARqGPS
            mk = lambda s: cls(hi, 2, apply_symmetries=s, **kw)
        ma, ma0 = mk(syms), mk(ident)
        run = ma
        if "unnorm" in name:
            # the conditionals of the sampled model are those of the normalised one up to a factor
            kw["normalize"] = False
            run = mk(syms)
        cls = nk.sampler.ARDirectSampler if name.startswith("pixel") else GPSKet.sampler.ARDirectSampler
        sa = cls(hi, dtype=states.dtype)
        amp = jax.jit(lambda v, x: ma.apply(v, x))
        amp0 = jax.jit(lambda v, x: ma0.apply(v, x))
        cond = jax.jit(lambda v, x: run.apply(v, x, method=run.conditionals))
        pw = kw.get("machine_pow", 2)
        local = np.asarray(hi.local_states)

        return hi, run, sa, states, amp, amp0, pw, local, (np.asarray(tr) if T > 1 else None), cond
    return C.memo(("M04", r, case["n"], case["model"], case["L"], tuple(case["ne"]), case["chains"], case["per"]), make)


def _record(u):
    _rec.setdefault(core.CURRENT.current if core.CURRENT is not None else None, []).append(np.array(u))


def watch_uniform():
    """Record the uniform numbers of compiled functions, for the rank which is running (jax is shared by the ranks)."""
    import jax
    from jax.experimental import io_callback
    real = jax.random.uniform
    if hasattr(real, "watched"):
        return

    def uniform(key, shape=(), *a, **k):
        u = real(key, shape, *a, **k)
        if np.prod(shape) >= 1 and not a and not k:
            io_callback(_record, None, u, ordered=True)
        return u
    uniform.watched = True
    jax.random.uniform = uniform


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n)
    watch_uniform()
    for r in range(n):
        _rec[r] = []

    def prog(r):
        import jax
        import jax.numpy as jnp
        import netket as nk
        hi, ma, sa, states, amp, amp0, pw, local, tr, cond = build(case, r)
        out = []
        vs = nk.vqs.MCState(sa, ma, n_samples_per_rank=case["per"] // case["chains"] * case["chains"],
                            seed=case["seed"], sampler_seed=case["seed"] + 1)
        base = vs.parameters

        def set_params(k):
            p = F.reseed(base, case["seed"] + k, case["scale"])
            if case["model"].startswith("pixel"):  # several layers
                p = jax.tree_util.tree_map(lambda x: x * (0.3 + 0.2 * case["scale"]), p)
            vs.parameters = p
        set_params(0)
        for j, op in enumerate(["sample"] + case["ops"]):
            _rec[r].clear()
            want = vs.n_samples_per_rank
            if op == "params":
                set_params(3 * j + 1)
            elif op == "reset":
                vs.reset()
            if op == "longer":
                cl = 2 * vs.chain_length
                s = np.array(vs.sample(chain_length=cl))
                want = cl * case["chains"]
            elif op == "single":  # one configuration at a time
                want = 24
                s = np.concatenate([np.array(vs.sample(chain_length=1)) for _ in range(want)], axis=1)
            elif op == "reset" or op == "params":
                s = np.array(vs.samples)
            else:
                s = np.array(vs.sample())
            jax.effects_barrier()
            us = list(_rec[r])
            if op == "single" and len(us) == want * case["L"] and all(a.size == 1 for a in us):
                us = list(np.array(us).reshape(want, case["L"]).T)
            v = {"params": vs.parameters, **vs.model_state}
            la = np.asarray(amp(v, jnp.asarray(states)))
            la0 = np.asarray(amp0(v, jnp.asarray(states)))
            out.append({"op": op, "s": s, "u": us, "p": np.exp(pw * la.real), "want": want,
                        "p0": np.exp(pw * la0.real), "c": np.asarray(cond(v, jnp.asarray(states)))})
        return out

    sim, out = C.run_job(case, n, prog, res, world=w)
    if res.violation:
        return res
    with w.as_rank(0):
        hi, ma, sa, states, amp, amp0, pw, local, tr, cond = build(case, 0)
    return check(case, res, C.values(out), states, local, tr)


def expected(states, p0, local, u, flip):
    """Configurations drawn site by site from p0 with the uniform numbers u (L, B)."""
    L = states.shape[1]
    B = u.shape[1]
    idx = np.searchsorted(local, states)
    order = np.argsort(local)
    pos = {v: i for i, v in enumerate(local)}
    idx = np.vectorize(pos.get)(states)
    alive = np.ones((B, len(states)), dtype=bool)
    res = np.zeros((B, L), dtype=int)
    close = np.zeros(B, dtype=bool)
    for i in range(L):
        q = np.stack([(alive & (idx[:, i] == d)[None]) @ p0 for d in range(len(local))], axis=1)
        tot = q.sum(axis=1, keepdims=True)
        c = np.cumsum(q, axis=1) / np.where(tot > 0, tot, 1)
        ui = 1 - u[i] if flip else u[i]
        k = (ui[:, None] > c).sum(axis=1)
        k = np.minimum(k, len(local) - 1)
        # a value of zero probability is never drawn (u = 0 or rounding in the last cumulative sum)
        close |= np.min(np.abs(ui[:, None] - c), axis=1) < 1e-9
        res[:, i] = k
        alive &= idx[None, :, i] == k[:, None]
    return np.asarray(local)[res], close


def marginals(states, p, local):
    """Exact conditional probabilities (state, site, value) and where they are defined."""
    B, L = states.shape
    D = len(local)
    pos = {v: i for i, v in enumerate(local)}
    idx = np.vectorize(pos.get)(states)
    out = np.zeros((B, L, D))
    ok = np.zeros((B, L, D), dtype=bool)
    code = np.zeros(B, dtype=int)
    for i in range(L):
        _, grp = np.unique(code, return_inverse=True)
        m = np.zeros((grp.max() + 1, D))
        np.add.at(m, (grp, idx[:, i]), p)
        tot = m.sum(axis=1)
        out[:, i] = (m / np.where(tot > 0, tot, 1)[:, None])[grp]
        ok[:, i] = (tot > 1e-12)[grp][:, None]
        code = code * D + idx[:, i]
    return out, ok


def check(case, res, obs, states, local, tr):
    from scipy.stats import chi2
    n, L = case["n"], case["L"]
    index = {tuple(s.tolist()): i for i, s in enumerate(states)}
    seen_u = {}
    prev = None
    total = {}
    for j in range(len(obs[0])):
        for r in range(n):
            o = obs[r][j]
            tag = f"{case['model']} L={L} rank {r} call {j} ({o['op']})"
            s = o["s"]
            if s.shape != (case["chains"], o["want"] // case["chains"], L):
                res.bad("shape", f"{tag}: samples of shape {s.shape} for {o['want']} requested")
                return res
            p = o["p"]
            if abs(p.sum() - 1) > 1e-6:
                res.bad("norm", f"{tag}: the model's probabilities sum to {p.sum():.9g}")
                return res
            if case["model"] == "pixel-con" and p[states.sum(axis=1) != 0].max() > 1e-14:
                res.bad("constraint", f"{tag}: configurations which break the constraint have probability "
                                      f"{p[states.sum(axis=1) != 0].max():.3g}")
                return res
            e, ok = marginals(states, o["p0"], local)
            c = o["c"]
            if c.shape != e.shape:
                res.bad("conditionals", f"{tag}: conditionals of shape {c.shape} instead of {e.shape}")
                return res
            with np.errstate(all="ignore"):
                c = c / c.sum(axis=-1, keepdims=True)
            d = np.where(ok, np.nan_to_num(np.abs(c - e), nan=1.0), 0)
            if d.max() > 1e-6:
                k = np.unravel_index(np.argmax(d), d.shape)
                res.bad("conditionals", f"{tag}: conditional probability of value {k[2]} on site {k[1]} of "
                                        f"{states[k[0]].tolist()} is {c[k]:.6g} instead of {e[k]:.6g}")
                return res
            flat = s.reshape(-1, L)
            counts = np.zeros(len(states))
            for row in flat:
                k = index.get(tuple(row.tolist()))
                if k is None:
                    res.bad("constraint", f"{tag}: drew {row.tolist()}")
                    return res
                counts[k] += 1
            key = p.tobytes()
            acc = total.setdefault(key, [p, np.zeros(len(states)), tag])
            acc[1] += counts
            # exact comparison where the draws are visible
            B = len(flat)
            us = [a.reshape(-1) for a in o["u"] if a.size == B]
            if B >= 8:
                for a in us:
                    h = a.tobytes()
                    if np.ptp(a) == 0:
                        res.bad("reuse", f"{tag}: the same random number for all configurations")
                        return res
                    if h in seen_u:
                        res.bad("reuse", f"{tag}: the same random numbers as in {seen_u[h]}")
                        return res
                for a in us:
                    seen_u[a.tobytes()] = tag
            if len(us) == L and B > 1:
                u = np.array(us)
                ok = False
                for flip in (False, True):
                    e, close = expected(states, o["p0"], local, u, flip)
                    if tr is None:
                        m = np.all(e == flat, axis=1)
                    else:
                        m = np.any(np.all(e[:, tr.T] == flat[:, None, :], axis=2), axis=1)
                    bad = ~(m | close)
                    if flip is False:
                        first = bad
                        efirst = e
                    if not bad.any():
                        ok = True
                        break
                res.probe("configurations compared exactly", int(B))
                if not ok:
                    k = int(np.nonzero(first)[0][0])
                    res.bad("conditional", f"{tag}: draw {k} is {flat[k].tolist()}, the exact conditionals with the "
                                           f"same uniform numbers give {efirst[k].tolist()} ({int(first.sum())} of {B} differ)")
                    return res
            res.note(C.h(s))
        # equal batches in different calls or on different ranks
        flatall = [(j, r, obs[r][j]["s"].tobytes()) for r in range(n)]
        for a in range(len(flatall)):
            for b in range(a):
                pr = obs[0][j]["p"]
                if flatall[a][2] == flatall[b][2] and impossible(pr, obs[0][j]["want"]):
                    res.bad("reuse", f"call {j}: ranks {flatall[b][1]} and {flatall[a][1]} drew identical samples")
                    return res
        if prev is not None and obs[0][j]["s"].shape == prev.shape and np.array_equal(prev, obs[0][j]["s"]) \
                and impossible(obs[0][j]["p"], obs[0][j]["want"]):
            res.bad("reuse", f"call {j} drew the same samples as the call before")
            return res
        prev = obs[0][j]["s"]
    kinds = 0
    for p, cnt, tag in total.values():
        N = cnt.sum()
        kinds = max(kinds, int((cnt > 0).sum()))
        big = p * N >= 5
        e = np.append(p[big] * N, p[~big].sum() * N)
        o = np.append(cnt[big], cnt[~big].sum())
        if e[-1] < 5:
            # too small to be tested on its own: exact zero test, and merged into the largest
            if (cnt[p < 1e-14] > 0).any():
                res.bad("zero", f"{tag}: drew a configuration of probability zero")
                return res
            k = int(np.argmax(e[:-1])) if len(e) > 1 else 0
            if len(e) > 1:
                e[k] += e[-1]
                o[k] += o[-1]
                e, o = e[:-1], o[:-1]
        if len(e) > 1:
            stat = float(np.sum((o - e) ** 2 / e))
            pv = float(chi2.sf(stat, len(e) - 1))
            res.probe("frequency tests")
            if pv < 1e-11:
                k = int(np.argmax((o - e) ** 2 / e))
                res.bad("frequencies", f"{tag}: {N:.0f} draws do not follow the squared amplitudes (chi2 {stat:.1f} for "
                                       f"{len(e) - 1}, probability {pv:.2g}; e.g. {o[k]:.0f} seen, {e[k]:.1f} expected)")
                return res
    res.probe(case["model"])
    res.samples = {"distinct": kinds, "calls": len(obs[0])}
    if kinds > 1:
        res.key = res.digest
    return res


def impossible(p, B):
    """Equal batches of B independent draws are out of the question."""
    return B * np.log10(max(1e-300, float(np.sum(p ** 2)))) < -13
