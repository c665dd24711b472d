"""Convergence to a known kernel: polynomial correlations and kernels, exact observable correlations."""
from fractions import Fraction as F
from math import factorial
import numpy as np
import lib
import volt
import gen
from lib import q, qa, rng

# method -> (allowed error ratio when the step is halved, bound on the error at the smallest step in units of h^order)
METHODS = {"rectangular": ("3/4", 1), "second_kind_rect": ("3/4", 1), "trapz": ("7/20", 2), "midpoint": ("7/20", 2), "second_kind_trapz": ("7/20", 2), "midpoint_w_richardson": ("1/4", 3)}


def cases(tier, seed, gen_):
    out = []
    for nb, do in [(1, 1), (2, 1), (2, 2), (3, 2)]:
        for rep in range(2 if tier == "quick" else 8):
            r = rng(seed, "c13", nb, do, rep)
            for m in METHODS:
                out.append(("%s-%dx%d-%d" % (m, nb, do, rep), dict(seed=int(r.randint(1 << 30)), nb=nb, do=do, method=m)))
    return out


def fm(a):
    return np.vectorize(lambda v: F(int(v)), otypes=[object])(a)


def polyval(C, t):
    return sum(C[i] * t**i for i in range(len(C)))


def conv(Bc, Kc, t):
    s = 0
    for a in range(len(Bc)):
        for b in range(len(Kc)):
            s = s + F(factorial(a) * factorial(b), factorial(a + b + 1)) * t ** (a + b + 1) * (Bc[a].dot(Kc[b]))
    return s


def strm(a):
    return [[str(v) for v in row] for row in a]


def run(rec, p):
    r = rng(p["seed"])
    nb, do, meth = p["nb"], p["do"], p["method"]
    # B(t) = B0 - t B1 + t^2/2 B2 ..., with B0 well conditioned
    B0 = fm(4 * np.eye(nb, dtype=int)) / 4 + fm(np.tril(r.randint(-1, 2, size=(nb, nb)), -1)) / 4
    B1 = fm(r.randint(-2, 3, size=(nb, nb))) / 8 - fm(np.eye(nb, dtype=int)) / 4
    B2 = fm(r.randint(-2, 3, size=(nb, nb))) / 8
    Bc = [B0, B1, B2]
    Kc = [fm(r.randint(-4, 5, size=(nb, do))) / 4 + F(1, 8), fm(r.randint(-4, 5, size=(nb, do))) / 4, fm(r.randint(-4, 5, size=(nb, do))) / 4, fm(r.randint(-2, 3, size=(nb, do))) / 4]
    BdC = [Bc[1], 2 * Bc[2]]
    runs = []
    import xarray as xr

    for N in (12, 24, 48):
        dt = F(1, {12: 16, 24: 32, 48: 64}[N])
        Tn = {12: 17, 24: 33, 48: 65}[N]
        ts = [dt * i for i in range(Tn)]
        B = [polyval(Bc, t) for t in ts]
        D = [-conv(Bc, Kc, t) for t in ts]
        Bd = [polyval(BdC, t) for t in ts]
        # B(0) K(t) = int B'(t-s) K(s) ds + Dd(t)
        Dd = [B0.dot(polyval(Kc, t)) - conv(BdC, Kc, t) for t in ts]
        fl = lambda S: np.array([[[float(v) for v in row] for row in m] for m in S])
        est = volt.holder(r, do, Tn, float(dt), nb=nb)
        # the time derivative correlations are those of (dE, observable): they enter with the sign of the second kind equation
        volt.inject(est, fl(B), fl(D), fl(Bd), fl(Dd))
        est.compute_kernel(method=meth)
        ker = est.model.kernel
        runs.append(dict(dt=str(dt), B=qa(fl(B)), D=qa(fl(D)), Bd=qa(fl(Bd)), Dd=qa(fl(Dd)), out=qa(gen.T(ker, "time_kernel", "dim_basis", gen.odim(est))), otime=qa(ker["time_kernel"].data)))
    ratio, order = METHODS[meth]
    bound = 4.0 * 2.0 ** (-6 * order) * {1: 4, 2: 20, 3: 2000}[order]
    rec.ev("conv", method=meth, Bc=[strm(b) for b in Bc], BdC=[strm(b) for b in BdC], Kc=[strm(k) for k in Kc], runs=runs, ratio=ratio, order=order, bound=q(bound))


if __name__ == "__main__":
    lib.main(cases, run)
