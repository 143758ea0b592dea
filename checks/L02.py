"""L02: kernel caches of the supervised models under arbitrary call histories.

A seeded client issues fits, predictions, reference-site changes, data changes and parameter
assignments; buffers passed to earlier calls are reused and overwritten (as a client that
recycles its arrays does).  After every operation predictions and kernel matrices are compared
with the defining product formula and with a freshly constructed model.
"""
from __future__ import annotations

import numpy as np

from . import common as C
from .L01 import share_numba, away
from simlib.runner import Result

PROPERTY = "L02"
RULE = "nontrivial: at least two operations of different kind; keyed by the sequence of operations and results"
REAL = ["GPSKet.supervised (all fit classes), numba kernels"]
STUB = ["MPI transport (simulated collectives)", "client (seeded history, reuses and overwrites its buffers)"]
BUDGET = {"quick": (40, 40, 40), "thorough": (2000, 120, 1500)}

KINDS = ("predict", "predict", "kernel", "ref", "fit", "assign", "overwrite", "overwrite_ref", "data",
         "grow")


def gen_block(rng, b):
    return {"n": [1, 1, 2][b % 3], "cls": ["log", "exp", "glm", "log"][b % 4]}


def gen_case(blk, rng, i):
    case = {**blk, **C.sched_fields(rng), "seed": rng.randrange(10**6)}
    case["L"] = rng.randint(2, 6)
    case["D"] = rng.choice([2, 2, 3, 4])
    case["M"] = rng.randint(1, 3)
    case["T"] = rng.choice([0, 0, 1, 3])
    case["N"] = rng.randint(1, 6)
    case["cplx"] = rng.random() < 0.5
    case["expand"] = rng.random() < 0.5
    case["bias"] = rng.random() < 0.3
    case["small"] = rng.choice([0, 0, 1, 2])
    case["ops"] = [{"op": rng.choice(KINDS), "x": rng.randrange(10**6),
                    "arr": rng.random() < 0.6, "copy": rng.random() < 0.4}
                   for _ in range(rng.randint(2, 12))]
    return case


def shrink(case):
    for k in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield {**case, "ops": case["ops"][:k] + case["ops"][k + 1:]}
    for k, v in (("n", 1), ("T", 0), ("bias", False), ("small", 0), ("M", 1), ("L", 2), ("D", 2),
                 ("N", 1), ("cplx", False), ("expand", False)):
        if case[k] != v:
            yield {**case, k: v}


def rand_eps(case, rs):
    e = 1.0 + 0.3 * rs.randn(case["D"], case["M"], case["L"])
    if case["cplx"]:
        e = e + 0.3j * rs.randn(*e.shape)
    flat = e.reshape(-1)
    for _ in range(case["small"]):
        flat[rs.randint(flat.size)] = rs.choice([0.0, 1e-15, 1e-13, 1e-9, -1e-20])
    return e


def rand_confs(case, rs):
    shape = (case["N"], case["L"]) + ((case["T"],) if case["T"] else ())
    return rs.randint(0, case["D"], size=shape)


def make(case, eps):
    from GPSKet.supervised import supervised_qgps as sq
    kw = dict(init_alpha=1.0, init_noise_tilde=0.3, include_bias=case["bias"])
    if case["cls"] == "glm":
        return sq.QGPSGenLinMod(eps, **kw)
    if case["cls"] == "log":
        return sq.QGPSLogSpaceFit(eps, complex_expand=case["expand"], **kw)
    return sq.QGPSLearningExp(eps, complex_expand=case["expand"], **kw)


def formula(case, eps, bias, confs):
    """Sum over support points and symmetry copies of the product over sites."""
    x = confs if confs.ndim == 3 else confs[..., None]
    out = np.zeros(len(x), dtype=eps.dtype)
    mag = np.zeros(len(x))
    for i in range(x.shape[0]):
        for t in range(x.shape[2]):
            for m in range(eps.shape[1]):
                p = 1.0
                for j in range(x.shape[1]):
                    p = p * eps[x[i, j, t], m, j]
                out[i] += p
                mag[i] += abs(p)
    if case["bias"]:
        out = out + bias
        mag = mag + abs(bias)
    return out, mag


def kernel_formula(case, eps, ref, confs):
    x = confs if confs.ndim == 3 else confs[..., None]
    D, M, L = eps.shape
    K = np.zeros((len(x), M, D), dtype=eps.dtype)
    mag = np.zeros((len(x), M, D))
    for i in range(x.shape[0]):
        for t in range(x.shape[2]):
            for m in range(M):
                p = 1.0
                for j in range(L):
                    if j != ref[m]:
                        p = p * eps[x[i, j, t], m, j]
                K[i, m, x[i, ref[m], t]] += p
                mag[i, m, x[i, ref[m], t]] += abs(p)
    K, mag = K.reshape(len(x), -1), mag.reshape(len(x), -1)
    if case["bias"]:
        one = np.ones((len(x), 1))
        K, mag = np.concatenate((K, one), 1), np.concatenate((mag, one), 1)
    return K, mag


def off(a, b, mag):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return True
    return not np.all(np.abs(a - b) <= 1e-9 * mag + 1e-300)


class Mismatch(Exception):
    pass


def client(case, r):
    rs0 = np.random.RandomState((case["seed"] + 977 * r) % 2**31)
    rs_eps = np.random.RandomState(case["seed"] % 2**31)
    eps0 = rand_eps(case, rs_eps)
    m = make(case, eps0)
    confs = rand_confs(case, rs0)
    amp = np.exp(0.4 * rs0.randn(case["N"])).astype(complex if case["cplx"] else float)
    refbuf = np.zeros(case["M"], dtype=int)
    seen = []
    fitted = False

    def pick_ref(op, rs):
        if not op["arr"]:
            return int(rs.randint(case["L"]))
        new = rs.randint(0, case["L"], size=case["M"])
        if op["copy"]:
            return new
        refbuf[:] = new      # the client recycles its array
        return refbuf

    def check(j, what):
        e, b = np.array(m.epsilon), np.array(m.bias)
        if not np.all(np.isfinite(e)):
            return "stop"
        want, mag = formula(case, e, b, confs)
        got = np.array(m.predict(confs))
        if case["cls"] == "log":
            if off(got, want, mag):
                raise Mismatch(f"operation {j} ({what}): prediction {got[:3]} instead of {want[:3]}")
        elif np.max(want.real) < 100 and off(got, np.exp(want), np.abs(np.exp(want)) * (1 + mag)):
            raise Mismatch(f"operation {j} ({what}): prediction {got[:3]} instead of {np.exp(want)[:3]}")
        return C.h(got)

    for j, op in enumerate(case["ops"]):
        rs = np.random.RandomState(op["x"])
        rr = np.random.RandomState((op["x"] + 31 * r) % 2**31)
        k = op["op"]
        if k == "predict":
            st = check(j, k)
        elif k == "kernel":
            if m.ref_sites is None:
                m.ref_sites = pick_ref(op, rs)
            K = np.array(m.set_kernel_mat(confs))
            want, mag = kernel_formula(case, np.array(m.epsilon), np.array(m.ref_sites), confs)
            if np.all(np.isfinite(want)) and off(K, want, mag):
                raise Mismatch(f"operation {j}: kernel matrix for reference sites {np.array(m.ref_sites)} "
                               f"deviates by {np.max(np.abs(K - want)):.3g}")
            st = C.h(K)
        elif k == "ref":
            m.ref_sites = pick_ref(op, rs)
            st = check(j, k)
        elif k in ("fit", "grow"):
            if case["small"] and case["cls"] != "log":
                continue
            ref = pick_ref(op, rs)
            kw = dict(prior_mean=float(rs.choice([0.0, 0.5])))
            if k == "grow" and case["cls"] in ("log", "exp"):
                m.fit_step_growing_RVM(confs, amp, ref, 2)
            elif case["cls"] == "log":
                m.fit_step(confs, np.log(amp), ref, opt_alpha=False, opt_noise=False, **kw)
            elif case["cls"] == "glm":
                m.fit_step(confs, amp, ref, opt_alpha=False, opt_beta=False,
                           log_fit_init=bool(rs.randint(2)), **kw)
            else:
                m.fit_step(confs, amp, ref, opt_alpha=False, opt_noise=False, **kw)
            fitted = True
            st = check(j, k)
        elif k == "assign":
            new = rand_eps(case, rs)
            m.epsilon = new
            new[...] = 7.0       # the assigned array is the client's to reuse
            st = check(j, k)
        elif k == "overwrite":
            confs[...] = rand_confs(case, rr)
            st = check(j, k) if op["copy"] else None
        elif k == "overwrite_ref":
            refbuf[:] = rs.randint(0, case["L"], size=case["M"])
            st = check(j, k)
        else:
            confs = rand_confs(case, rr)
            st = check(j, k) if op["copy"] else None
        if st == "stop":
            break
        seen.append((k, st))

    # a fit of the model with this history and of a fresh one
    e = np.array(m.epsilon)
    if np.all(np.isfinite(e)) and not case["small"]:
        f = make(case, e)
        for name in ("alpha_mat", "alpha_bias", "bias"):
            setattr(f, name, np.array(getattr(m, name)))
        f.noise_tilde, f.beta = m.noise_tilde, m.beta
        ref = int(rs_eps.randint(case["L"]))
        target = np.log(amp) if case["cls"] == "log" else amp
        kw = dict(opt_alpha=False)
        kw["opt_beta" if case["cls"] == "glm" else "opt_noise"] = False
        m.fit_step(confs, target, ref, **kw)
        f.fit_step(confs, target, ref, **kw)
        if away(m.epsilon, f.epsilon, 1e-6):
            raise Mismatch("a final fit of the model differs from the same fit of a fresh model by "
                           f"{np.max(np.abs(m.epsilon - f.epsilon)):.3g}")
    return seen


def run_case(case):
    res = Result()
    n = case["n"]
    w = C.get_world(n, packages=("netket", "GPSKet", "GPSKet.supervised"), prelude=share_numba,
                    key="sup")
    with np.errstate(all="ignore"):
        sim, out = C.run_job(case, n, lambda r: client(case, r), res, world=w, allow_exc=True)
    if res.violation:
        return res
    for r, o in enumerate(out):
        if o[0] == "exc":
            if isinstance(o[1], Mismatch):
                res.bad("stale", f"{case['cls']}: {o[1]}")
            else:
                res.bad(f"exception:{type(o[1]).__name__}",
                        f"{o[1]}\n" + C.short_tb(sim.ranks[r].tb))
            return res
    for op in case["ops"]:
        res.probe("op " + op["op"])
    res.note(C.values(out))
    if len({o["op"] for o in case["ops"]}) > 1:
        res.key = res.digest
    return res
