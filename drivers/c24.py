"""Prony series: exact fits of sums of exponentials, evaluation, filtering."""
import numpy as np
import xarray as xr
import lib
import VolterraBasis as vb
from lib import q, qa, rng

E = np.exp
# multipliers and weights
SETS = {
    "r1": ([0.75], [1]),
    "r2": ([0.5, 0.9], [0.75, 1.25]),
    "r2s": ([0.25, 0.75], [1.0, -0.5]),
    "r3": ([0.2, 0.6, 0.9], [1.0, 1.0, -0.5]),
    "c2": ([0.8 * E(0.7j), 0.8 * E(-0.7j)], [0.5, 0.5]),
    "c2s": ([0.8 * E(0.7j), 0.8 * E(-0.7j)], [0.5 + 0.25j, 0.5 - 0.25j]),
    "c3": ([0.8 * E(0.7j), 0.8 * E(-0.7j), 0.5], [0.5, 0.5, 0.75]),
    "c4": ([0.8 * E(0.7j), 0.8 * E(-0.7j), 0.9 * E(1.5j), 0.9 * E(-1.5j)], [0.5, 0.5, 0.25, 0.25]),
    "n1": ([-0.5], [1.0]),
    "n2s": ([-0.05, 0.75], [1.0, 2.0]),
    "n2m": ([-0.3, 0.02], [1.0, 2.0]),
    "n2t": ([-(2.0**-11), 0.75], [1.0, 2.0]),
    "n2": ([-0.5, 0.75], [1.0, 2.0]),
    "n2b": ([-0.5, -0.75], [1.0, 2.0]),
    "n3": ([-0.5, 0.75, 0.25], [1.0, 2.0, -1.5]),
    "nc3": ([0.8 * E(0.7j), 0.8 * E(-0.7j), -0.5], [0.5, 0.5, 0.75]),
    "nc4": ([0.8 * E(0.7j), 0.8 * E(-0.7j), -0.5, -0.75], [0.5, 0.5, 0.75, 0.5]),
    "div2": ([1.25, 0.75], [0.5, 1.0]),
    "slow2": ([0.9921875, 0.5], [1.0, -0.25]),
    "divn": ([-1.125, 0.75], [0.5, 1.0]),
    "divc": ([1.1 * E(0.7j), 1.1 * E(-0.7j), 0.75], [0.5, 0.5, 1.0]),
}


def series(z, c, n):
    z, c = np.array(z, complex), np.array(c, complex)
    return (c[None] * z[None] ** np.arange(n)[:, None]).sum(1).real


def neg(z):
    return sum(1 for x in z if abs(np.imag(x)) < 1e-12 and np.real(x) < 0)


def tame(A):
    """whether powers of the exponential can be judged: far from normal matrices say nothing"""
    return bool(np.max(np.abs(A)) < 64)


def cases(tier, seed, gen_):
    out = []
    R = 1 if tier == "quick" else 4
    for nm in SETS:
        for L in (9, 15, 24) if tier == "quick" else (9, 12, 15, 24, 41):
            for rep in range(R):
                r = rng(seed, "c24", nm, L, rep)
                out.append(("exact-%s-%d-%d" % (nm, L, rep), dict(kind="exact", set=nm, L=L, seed=int(r.randint(1 << 30)))))
    for rep in range(6 * R):
        r = rng(seed, "c24k", rep)
        out.append(("kernel-%d" % rep, dict(kind="kernel", seed=int(r.randint(1 << 30)))))
    for rep in range(10 * R):
        r = rng(seed, "c24n", rep)
        out.append(("noisy-%d" % rep, dict(kind="noisy", seed=int(r.randint(1 << 30)))))
    for P in (5, 6, 8, 9, 12):
        for rep in range(R):
            r = rng(seed, "c24m", P, rep)
            out.append(("modes-%d-%d" % (P, rep), dict(kind="modes", P=P, seed=int(r.randint(1 << 30)))))
    return out


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "exact":
        z, c = SETS[p["set"]]
        L = p["L"]
        amp = float(r.choice([1.0, -2.0, 16.0, 0.125]))
        dt = float(r.choice([0.25, 0.5, 1.0]))
        remove = not p["set"].startswith("div")
        full = amp * series(z, c, L + 8)
        y = full[:L].copy()
        y0c = y.copy()
        for kw, count in ((dict(N_keep=len(z)), True), (dict(N_keep=len(z) + 1), False), (dict(thres=1e-9), False), (dict(), False), (dict(N_keep=200), False)):
            if not remove:
                kw = dict(kw, remove=False)
            # without a limit, numerical zeros may be kept: only limited fits have a fixed number of terms
            y0, A = vb.prony_fit_times_serie(y, dt, **kw)
            rec.ev("pfit", data=qa(full), dt=q(dt), y0=q(y0), A=qa(A), nterms=len(z) + neg(z) if count else -1, exact=True, tol="1/1000000")
            if count:
                t = np.array([0.3, 0.0, 1.7, 2.25])
                rec.ev("peval", times=qa(t), y0=q(y0), A=qa(A), out=qa(vb.prony_series_eval(t, y0, A)))
                rec.ev("peval", times=qa(t), y0=q(y0), A=qa(A), out=qa(vb.prony_series_eval(t.reshape(-1, 1), y0, A)))
                rec.ev("peval", times=qa(t), y0=q(y0), A=qa(A), out=qa(vb.memory_fit_eval(t, ("prony", (y0, A)))))
                place = r.randint(4, size=2500)  # very many times
                pick = np.array([0, 1, 500, 1024, 1025, 2498, 2499])
                rec.ev("peval", times=qa(t[place[pick]]), y0=q(y0), A=qa(A), out=qa(np.asarray(vb.prony_series_eval(t[place], y0, A))[pick]))
                if remove:  # late times
                    t = np.array([250.0, 31.0, 4.0, 97.5]) * min(dt, 0.5)
                    rec.ev("peval", times=qa(t), y0=q(y0), A=qa(A), out=qa(vb.prony_series_eval(t, y0, A)))
                ty, (b0, B) = vb.memory_fit(np.arange(L) * dt, y, type="prony", **kw)
                rec.ev("same", what="memory-fit-is-the-prony-fit", a=[q(y0), qa(A)], b=[q(b0), qa(B)], tol="1/1000000")
        rec.ev("same", what="data-unchanged", a=qa(y0c), b=qa(y), tol="0")
        if remove:
            rec.ev("inspect", data=qa(y0c), want=qa(y0c), out=qa(vb.prony_inspect_data(y, N_keep=len(z))), tol="1/1000000000")
            rec.ev("inspect", data=qa(y0c), want=qa(y0c), out=qa(vb.prony_inspect_data(y.reshape(-1, 1))), tol="1/1000000000")
            rec.ev("inspect", data=qa(y0c), want=qa(y0c), out=qa(vb.prony_inspect_data(y.tolist(), thres=1e-10)), tol="1/1000000")
            rec.ev("same", what="data-unchanged", a=qa(y0c), b=qa(y), tol="0")
        else:
            y0, A = vb.prony_fit_times_serie(y, dt, N_keep=len(z))
            rec.ev("pkeep", dt=q(dt), nkeep=len(z), A=qa(A), stable=True)
    elif p["kind"] == "kernel":
        names = [n for n in SETS if not n.startswith("div")]
        nb, dx, L = int(r.choice([1, 2, 3])), int(r.choice([1, 2])), 19
        dt = float(r.choice([0.25, 0.5]))
        pick = [[names[int(r.randint(len(names)))] for k in range(nb)] for d in range(dx)]
        if p["seed"] % 2:  # all components of the same number of terms, so that the number kept is the rank
            pick = [[["r2", "r2s", "c2", "c2s", "n2"][int(r.randint(5))] for k in range(nb)] for d in range(dx)]
        full = np.stack([np.stack([float(r.choice([1, 2, -1])) * series(*SETS[pick[d][k]], L + 6) for k in range(nb)], axis=1) for d in range(dx)], axis=2)
        K = full[:L].copy()
        t = np.arange(L) * dt
        kw = dict(N_keep=2) if p["seed"] % 2 else dict(thres=1e-9)
        times = [0.0, dt, 2.5 * dt, 4.0]
        X = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t})
        for KK, tt in ((K, t), (K, t.reshape(-1, 1)), (X, X["time_kernel"])):
            res = vb.prony_fit_kernel(tt, KK, **kw)
            for d in range(dx):
                for k in range(nb):
                    y0, A = res[d][k]
                    rec.ev("pfit", data=qa(full[:, k, d]), dt=q(dt), y0=q(y0), A=qa(A), nterms=2 + neg(SETS[pick[d][k]][0]) if p["seed"] % 2 else -1, exact=True, tol="1/1000000")
        P = [[dict(y0=q(res[d][k][0]), A=qa(res[d][k][1])) for k in range(nb)] for d in range(dx)]
        rec.ev("pkeval", times=qa(times), p=P, out=qa(vb.prony_series_kernel_eval(np.array(times), res)))
        rec.ev("pkeval", times=qa(times), p=P, out=qa(vb.prony_series_kernel_eval(xr.DataArray(times, dims="time_kernel"), res)))
        rec.ev("pkeval", times=qa(times), p=P, out=qa(vb.memory_kernel_eval(np.array(times), ("prony", res))))
        late = np.array([1.25, 0.5, 3.0])  # in any order, from any start
        rec.ev("pkeval", times=qa(late), p=P, out=qa(vb.prony_series_kernel_eval(late, res)))
        rec.ev("pkeval", times=qa(late), p=P, out=qa(vb.memory_kernel_eval(late, ("prony", res))))
        # many times, nearly but not exactly evenly spaced
        many = np.arange(60) * dt / 4 + r.randint(1, 3, size=60) * dt / 2048
        many[0] = 0.0
        at = np.array([0, 1, 2, 20, 41, 58, 59])
        rec.ev("pkeval", times=qa(many[at]), p=P, out=qa(np.asarray(vb.prony_series_kernel_eval(many, res))[at]))
        ty, r2 = vb.memory_fit_kernel(t, K, type="prony", **kw)
        rec.ev("pkeval", times=qa(times), p=[[dict(y0=q(r2[d][k][0]), A=qa(r2[d][k][1])) for k in range(nb)] for d in range(dx)], out=qa(vb.memory_kernel_eval(np.array(times), (ty, r2))))
        rec.ev("same", what="both-fits-agree", a=qa(vb.prony_series_kernel_eval(np.array(times), res)), b=qa(vb.memory_kernel_eval(np.array(times), (ty, r2))), tol="1/1000000")
    elif p["kind"] == "noisy":
        L = int(r.choice([15, 25, 40]))
        dt = 0.25
        y = np.exp(-0.3 * np.arange(L)) * np.cos(0.4 * np.arange(L)) + r.normal(size=L) * float(r.choice([0.01, 0.1]))
        for nk in (1, 2, 4, 6):
            got = rec.call(vb.prony_fit_times_serie, y, dt, N_keep=nk)
            if got[0] == "ok":
                rec.ev("pkeep", dt=q(dt), nkeep=nk, A=qa(got[1][1]), stable=tame(got[1][1]))
                rec.ev("same", what="initial-value", a=q(y[0]), b=q(got[1][0]), tol="0")
        # the same limit, given as a threshold between the singular values of the (normalised) Hankel matrix
        n = (L - 1) // 2
        s = np.linalg.svd(np.array([[y[i + j] / y[0] for j in range(n + 1)] for i in range(n + 1)]), compute_uv=False)
        for nk in (1, 2, 4):
            if s[nk - 1] / s[nk] < 1.05:
                continue
            for f in (lambda **kw: vb.prony_fit_times_serie(y, dt, **kw), lambda **kw: vb.prony_fit_kernel(np.arange(L) * dt, y.reshape(-1, 1, 1), **kw)[0][0]):
                got = rec.call(f, thres=float(np.sqrt(s[nk - 1] * s[nk])))
                if got[0] == "ok":
                    rec.ev("pkeep", dt=q(dt), nkeep=nk, A=qa(got[1][1]), stable=tame(got[1][1]))
    else:
        # a periodic series has an anticirculant Hankel matrix: its singular vectors are the Fourier modes
        P = p["P"]
        m = 2 * P - 1
        freqs = list(range(P // 2 + 1))
        cnt = [1 if f == 0 or 2 * f == P else 2 for f in freqs]
        order = r.permutation(len(freqs))
        amps = np.zeros(len(freqs))
        for rank, i in enumerate(order):  # distinct singular values
            amps[i] = cnt[i] * (rank + 1.0) / 4
        y = sum(a * np.cos(2 * np.pi * f * np.arange(m) / P) for a, f in zip(amps, freqs))
        kept = np.zeros(len(freqs), bool)
        nk = 0
        for i in order[::-1][:-1]:
            kept[i] = True
            nk += cnt[i]
            out = vb.prony_inspect_data(y, N_keep=nk)
            rec.ev("modes", period=P, m=m, freqs=[int(f) for f in freqs], amps=qa(amps), kept=[bool(b) for b in kept], nkeep=nk, out=qa(out))
            # the same by threshold: below the smallest kept singular value
            sv = sorted(a / c for a, c in zip(amps, cnt))
            lo = max(a / c for a, c, b in zip(amps, cnt, kept) if not b)
            hi = min(a / c for a, c, b in zip(amps, cnt, kept) if b)
            out = vb.prony_inspect_data(y, thres=P * (lo + hi) / 2 / abs(y[0]))
            rec.ev("modes", period=P, m=m, freqs=[int(f) for f in freqs], amps=qa(amps), kept=[bool(b) for b in kept], nkeep=nk, out=qa(out))


if __name__ == "__main__":
    lib.main(cases, run)
