"""Noise generators: the response to each number of the white noise, and with it the exact covariance."""
import numpy as np
import xarray as xr
import lib
import gen
import VolterraBasis as vb
from VolterraBasis.gle_integrate import ColoredNoiseGenerator
from lib import q, qa, rng


def cases(tier, seed, gen_):
    out = []
    for shape in ("exp", "gauss", "expcos", "mixed"):
        for d in (1, 2, 3):
            for L in (14, 18) if d < 3 else (14,):
                for rep in range(1 if tier == "quick" else 5):
                    r = rng(seed, "c19", shape, d, L, rep)
                    out.append(("coloured-%s-d%d-L%d-%d" % (shape, d, L, rep), dict(kind="col", shape=shape, d=d, L=L, seed=int(r.randint(1 << 30)), dt=float(r.choice([0.25, 0.5, 1.0])))))
    for nk in (1, 2, 3):
        for d in (1, 2, 3):
            r = rng(seed, "c19i", nk, d)
            out.append(("integrator-%d-d%d" % (nk, d), dict(kind="int", nk=nk, d=d, L=14, seed=int(r.randint(1 << 30)), dt=0.25)))
    for n in (2, 3, 5, 8):
        for form in ("stationary", "wiener", "singular", "identity", "random", "graded"):
            r = rng(seed, "c19k", n, form)
            out.append(("kl-%s-%d" % (form, n), dict(kind="kl", n=n, form=form, seed=int(r.randint(1 << 30)), dt=float(r.choice([0.25, 1.0])))))
    for n in (1, 2, 3, 6):
        r = rng(seed, "c19s", n)
        out.append(("stat-%d" % n, dict(kind="stat", n=n, seed=int(r.randint(1 << 30)))))
    return out


class Impulse:
    """White noise with a single one; counts the numbers drawn."""

    def __init__(self):
        self.pos, self.count = -1, 0

    def start(self, pos):
        self.pos, self.count = pos, 0

    def __call__(self, size=None, **kw):
        n = int(np.prod(size)) if size is not None else 1
        a = np.zeros(n)
        if self.count <= self.pos < self.count + n:
            a[self.pos - self.count] = 1.0
        self.count += n
        return a.reshape(size) if size is not None else a[0]


def response(g, imp, *args, rows=slice(None)):
    imp.start(-1)
    z = np.asarray(g.generate(*args))
    M = imp.count
    zero = not np.any(z)
    R = np.zeros(z[rows].shape + (M,))
    for k in range(M):
        imp.start(k)
        R[..., k] = g.generate(*args)[rows]
    return R, zero


def shape_fn(kind, r, n):
    if kind == "mixed":
        kind = ["exp", "gauss", "expcos"][int(r.randint(3))]
    if kind == "exp":
        return np.exp(-float(r.choice([1.75, 1.5])) * n)
    if kind == "gauss":
        return np.exp(-float(r.choice([0.25, 0.375])) * n**2)
    return np.exp(-1.625 * n) * np.cos(float(r.choice([0.5, 1.0])) * n)


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "stat":
        n = p["n"]
        k = r.randint(-16, 17, size=n) / 8.0
        b = r.randint(-16, 17, size=max(0, n - 1)) / 8.0
        F = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix
        rec.ev("stat", kernel=qa(k), back="absent", out=qa(F(k.copy())))
        if n > 1:
            rec.ev("stat", kernel=qa(k), back=qa(b), out=qa(F(k.copy(), backward_kernel=b.copy())))
        return
    if p["kind"] == "kl":
        n, form, dt = p["n"], p["form"], p["dt"]
        A = r.randint(-8, 9, size=(n, n)) / 8.0
        if form == "stationary":
            C = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(gen.rnd(np.exp(-0.5 * np.arange(n)), 2**20))
        elif form == "wiener":
            C = np.minimum.outer(np.arange(1, n + 1), np.arange(1, n + 1)).astype(float)
        elif form == "singular":
            A[:, -1] = 0
            C = A @ A.T
        elif form == "graded":  # variances of very different sizes
            C = A @ A.T / 4096 + np.diag(2.0 ** (-3 * np.arange(n)))
        elif form == "identity":
            C = np.eye(n) * 2
        else:
            C = A @ A.T + np.eye(n)
        imp = Impulse()
        C0 = C.copy()
        g = vb.KarhunenLoeveNoiseGenerator(C, dt, rng=imp)
        for size in [None, n, n - 1, 1]:
            a = () if size is None else (size,)
            R, zero = response(g, imp, *a)
            rec.ev("kl", n=n if size is None else size, dt=q(dt), cov=qa(C0), resp=qa(R))
        rec.ev("refused", what="noise longer than the covariance", outcome=rec.outcome(g.generate, n + 1))
        return
    d, L, dt = p["d"], p["L"], p["dt"]
    t = np.arange(L) * dt
    n = np.arange(L)
    imp = Impulse()
    if p["kind"] == "col":
        K = np.zeros((L, d, d))
        for a in range(d):
            for b in range(d):
                # only the diagonal is used: the rest is arbitrary
                K[:, a, b] = float(r.choice([0.5, 1.0, 2.0])) * shape_fn(p["shape"], r, n) if a == b else r.randint(-8, 9, size=L) / 8.0
        g = ColoredNoiseGenerator(K.copy(), t, rng=imp)
        co = "absent"
        gens = [(g, K, co)]
    else:
        nk = p["nk"] if p["nk"] >= d else d
        K = np.zeros((L, nk, d))
        base = shape_fn("mixed", r, n)
        for k in range(nk):
            for a in range(d):
                K[:, k, a] = float(r.choice([0.5, 1.0, 1.5])) * base
        co = r.randint(1, 9, size=(nk, d)) / 8.0
        est, m, trajs = integ_model(r, nk, d, L, dt)
        m.kernel = xr.DataArray(K.copy(), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t})
        gens = [(vb.Integrator_gle(m, coeffs_noise_kernel=co, rng=imp, verbose=False).noise_generator, K, co)]
        m.inv_mass_coeff = co
        gens.append((vb.Integrator_gle(m, rng=imp, verbose=False).noise_generator, K, co))
        gens.append((vb.Integrator_gle(None, basis=m.basis, force_coeff=np.zeros((nk, d)), kernel=K, dt=dt, coeffs_noise_kernel=co, rng=imp, verbose=False).noise_generator, K, co))
        if nk == d:
            gens.append((vb.Integrator_gle(None, basis=m.basis, force_coeff=np.zeros((nk, d)), kernel=K, dt=dt, rng=imp, verbose=False).noise_generator, K, "absent"))
    for g, K, co in gens:
        if p["kind"] == "col" and d == 1 and L == 14:  # a very long one
            size = int(r.choice([1500, 2300]))
            idx = [0, 1, 2, size // 3, size // 3 + 1, 1024, 1026, size - 2, size - 1]
            R, zero = response(g, imp, size, rows=idx)
            rec.ev("coloured", n=len(idx), dim=d, idx=idx, K=qa(K), coeffs=co if isinstance(co, str) else qa(co), dt=q(dt), resp=qa(R), tol="1/100000", full=size, linear=bool(zero))
        for size in ((1, 3, 6, 2 * L + 2) if p["d"] == 2 or p["L"] == 18 else (1, 6, 2 * L - 1, 260)) if p["kind"] == "col" else (2, 5):
            R, zero = response(g, imp, size)
            if R.shape[0] > 12:  # the ends and the middle
                idx = [0, 1, 2, size // 2, size // 2 + 1, size - 2, size - 1]
                R = R[idx]
            else:
                idx = list(range(size))
            rec.ev("coloured", n=len(idx), dim=d, idx=idx, K=qa(K), coeffs=co if isinstance(co, str) else qa(co), dt=q(dt), resp=qa(R), tol="1/100000", full=size, linear=bool(zero))


def integ_model(r, nk, d, L, dt):
    trajs = [gen.traj(r, 30, d, dt=dt)]
    est = gen.estimator(trajs, "Pos_gle", dict(kind="linear"), (L - 0.5) * dt)
    est.set_zero_force()
    return est, est.model, trajs


if __name__ == "__main__":
    lib.main(cases, run)
