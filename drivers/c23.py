"""Functional fits of memory kernels and their evaluation."""
import numpy as np
import xarray as xr
import lib
import VolterraBasis as vb
from VolterraBasis import fit_memory as fm
from lib import q, qa, rng

TYPES = {
    "exp": [(2.0, 1.5), (-1.0, 0.25), (0.5, 3.0)],
    "exponential": [(1.5, 1.0)],
    "expnorm": [(1.5,), (0.25,), (3.0,)],
    "exp_norm": [(1.25,)],
    "doubleexpnorm": [(0.25, 2.0, 0.5), (0.5, 3.0, 0.25), (0.125, 1.5, 0.75)],
    "double_exp_norm": [(0.25, 2.5, 0.5)],
    "sech": [(2.0, 1.0, 1.5), (1.0, 0.5, 2.0), (-1.0, 1.5, 0.75)],
    "sech_one": [(2.0, 1.5), (-1.0, 0.25), (0.5, 3.0)],
    "sech_two": [(2.0, 1.5), (-1.0, 0.25), (0.5, 3.0)],
    "gaussian": [(2.0, 1.5), (-1.0, 0.25), (0.5, 3.0)],
}


def value(ty, p, t):
    """The data of the exact fits (the specification evaluates the same forms by series)."""
    ty = ty.replace("_", "")
    if ty in ("exp", "exponential"):
        return p[0] * np.exp(-p[1] * t)
    if ty == "expnorm":
        return np.exp(-p[0] * t)
    if ty == "doubleexpnorm":
        return p[2] * np.exp(-p[0] * t) + (1 - p[2]) * np.exp(-p[1] * t)
    if ty == "gaussian":
        return p[0] * np.exp(-p[1] * t**2)
    return p[0] / np.cosh(p[1] * t) ** {"sech": p[2] if len(p) > 2 else 0, "sechone": 1, "sechtwo": 2}[ty]


def cases(tier, seed, gen_):
    out = []
    R = 1 if tier == "quick" else 5
    for ty in TYPES:
        for rep in range(R):
            r = rng(seed, "c23", ty, rep)
            out.append(("fit-%s-%d" % (ty, rep), dict(kind="fit", ty=ty, seed=int(r.randint(1 << 30)))))
            out.append(("kernel-%s-%d" % (ty, rep), dict(kind="kernel", ty=ty, seed=int(r.randint(1 << 30)))))
    for rep in range(4 * R):
        r = rng(seed, "c23a", rep)
        out.append(("asymptotic-%d" % rep, dict(kind="asym", seed=int(r.randint(1 << 30)))))
    out.append(("refusals", dict(kind="refuse", seed=seed)))
    return out


def plist(p):
    return qa(np.asarray(p, float))


def run(rec, p):
    r = rng(p["seed"])
    if p["kind"] == "fit":
        ty = p["ty"]
        dt = float(r.choice([0.125, 0.25]))
        n = int(r.choice([21, 30]))
        t = np.arange(n) * dt
        for par in TYPES[ty]:
            times = np.concatenate([t, [0.3, 7.25]] if ty == "sech" else [t, [0.3, 7.25, -0.75]])
            rec.ev("eval", type=ty, p=plist(par), times=qa(times), out=qa(vb.memory_fit_eval(times, np.array(par), type=ty)))
            rec.ev("eval", type=ty, p=plist(par), times=qa(times), out=qa(vb.memory_fit_eval(times, (ty, np.array(par)))))
            rec.ev("eval", type=ty, p=plist(par), times=qa(times), out=qa(vb.memory_fit_eval(times, tuple(par), type=ty)))
            for unit in (2.0**10, 2.0**-10):  # other units of time
                k = ty.replace("_", "")
                fac = {"gaussian": [1, unit**-2], "expnorm": [1 / unit], "doubleexpnorm": [1 / unit, 1 / unit, 1]}.get(k, [1, 1 / unit, 1])[: len(par)]
                pu, tu = np.array(par) * np.array(fac), times[::3] * unit
                rec.ev("eval", type=ty, p=plist(pu), times=qa(tu), out=qa(vb.memory_fit_eval(tu, pu, type=ty)))
            if ty != "gaussian":
                late = np.array([16.0, 40.0])
                rec.ev("eval", type=ty, p=plist(par), times=qa(late), out=qa(vb.memory_fit_eval(late, np.array(par), type=ty)))
            place = r.randint(len(times), size=4001)  # very many times
            pick = np.array([0, 1, 999, 1000, 2048, 3999, 4000])
            rec.ev("eval", type=ty, p=plist(par), times=qa(times[place[pick]]), out=qa(np.asarray(vb.memory_fit_eval(times[place], np.array(par), type=ty))[pick]))
            y = value(ty, par, t)
            for exact in (True, False):
                d = y if exact else y + r.randint(-8, 9, size=n) / 512.0
                d0, t0 = d.copy(), t.copy()
                for tt in (t, t.reshape(-1, 1), xr.DataArray(t, dims="time_kernel")) if exact else (t,):
                    oty, po = vb.memory_fit(tt, d, type=ty)
                    rec.ev("fit", type=ty, otype=str(oty), times=qa(t0), data=qa(d0), p=plist(po), exact=exact)
                rec.ev("same", what="data-unchanged", a=qa(d0), b=qa(d), tol="0")
            # times which do not start at zero
            late = t + 0.5
            oty, po = vb.memory_fit(late, value(ty, par, late), type=ty)
            rec.ev("fit", type=ty, otype=str(oty), times=qa(late), data=qa(value(ty, par, late)), p=plist(po), exact=True)
        if ty == "exp":
            d = value(ty, (2.0, 1.5), t)
            oty, po = vb.memory_fit(t, d)  # the default
            rec.ev("fit", type="exp", otype=str(oty), times=qa(t), data=qa(d), p=plist(po), exact=True)
        # options go to the least squares: with all the weight on the first half, the second one does not matter
        w = np.where(np.arange(n) < n // 2, 1.0, 1e6)
        par = TYPES[ty][0]
        d = value(ty, par, t)
        d2 = np.where(np.arange(n) < n // 2, d, d + 0.25)
        oty, po = vb.memory_fit(t, d2, type=ty, sigma=w)
        rec.ev("same", what="options-of-the-fit", a=qa(d[: n // 2]), b=qa(vb.memory_fit_eval(t[: n // 2], (oty, po))), tol="1/1000")
    elif p["kind"] == "kernel":
        ty = p["ty"]
        dt = float(r.choice([0.125, 0.25]))
        n, nb, dx = 25, int(r.choice([1, 2, 3])), int(r.choice([1, 2]))
        t = np.arange(n) * dt
        pars = [[np.array(TYPES[ty][int(r.randint(len(TYPES[ty])))]) * float(r.choice([1, 0.75]) if ty not in ("doubleexpnorm", "double_exp_norm") else 1) for k in range(nb)] for d in range(dx)]
        K = np.stack([np.stack([value(ty, pars[d][k], t) for k in range(nb)], axis=1) for d in range(dx)], axis=2)
        P = qa(np.array(pars))
        times = np.concatenate([t[:5], [0.3, 6.0]])
        rec.ev("keval", type=ty, p=P, times=qa(times), out=qa(vb.memory_kernel_eval(times, pars, type=ty)))
        rec.ev("keval", type=ty, p=P, times=qa(times), out=qa(vb.memory_kernel_eval(times, (ty, pars))))
        rec.ev("keval", type=ty, p=P, times=qa(times), out=qa(vb.memory_kernel_eval(xr.DataArray(times, dims="time_kernel"), (ty, pars))))
        for KK, tt in ((K, t), (xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t}), None)):
            if tt is None:
                tt = KK["time_kernel"]
            oty, po = vb.memory_fit_kernel(tt, KK, type=ty)
            rec.ev("kfit", type=ty, otype=str(oty), times=qa(t), data=qa(K), p=[[plist(x) for x in row] for row in po])
            ev = vb.memory_kernel_eval(tt, (oty, po))
            rec.ev("same", what="fit-then-evaluate", a=qa(K), b=qa(ev), tol="1/10000")
        # functions which differ by less than one percent: every one still is fitted on its own
        near = [[np.array(TYPES[ty][0]) * (1 - 2.0 ** -8 * (k + 3 * d)) for k in range(3)] for d in range(dx)]
        Kn = np.stack([np.stack([value(ty, near[d][k], t) for k in range(3)], axis=1) for d in range(dx)], axis=2)
        oty, po = vb.memory_fit_kernel(t, Kn, type=ty)
        rec.ev("kfit", type=ty, otype=str(oty), times=qa(t), data=qa(Kn), p=[[plist(x) for x in row] for row in po])
        rec.ev("same", what="nearly-equal-functions", a=qa(Kn), b=qa(vb.memory_kernel_eval(t, (oty, po))), tol="1/10000")
        # a kernel of the order of one thousandth of the unit: every entry still is its own
        amp = ty not in ("expnorm", "exp_norm", "doubleexpnorm", "double_exp_norm")
        if amp and nb > 1:
            Ks = K * 2.0**-12
            got = rec.call(vb.memory_fit_kernel, t, Ks, type=ty)
            one = [[rec.call(vb.memory_fit, t, Ks[:, k, d], type=ty) for k in range(nb)] for d in range(dx)]
            if got[0] == "ok" and all(a[0] == "ok" for row in one for a in row):
                for d in range(dx):
                    for k in range(nb):
                        w = np.asarray(one[d][k][1][1])
                        rec.ev("same", what="kernel-fit-is-the-fit-of-each-entry", a=qa(np.asarray(got[1][1][d][k])), b=qa(w), tol=q(1e-9 * float(np.max(np.abs(w)))))
        # every entry of the kernel is fitted as it would be alone, whatever its magnitude and the others
        K2 = K + r.randint(-8, 9, size=K.shape) / 1024.0
        K2[:, 0, 0] *= 2.0**-20
        if dx > 1:
            K2[:, nb - 1, 1] *= 64.0
        res = rec.call(vb.memory_fit_kernel, t, K2, type=ty)
        alone = [[rec.call(vb.memory_fit, t, K2[:, k, d], type=ty) for k in range(nb)] for d in range(dx)]
        good = all(a[0] == "ok" for row in alone for a in row)
        rec.ev("same", what="kernel-fit-succeeds-as-its-entries", a=[q(res[0] == "ok")], b=[q(good)], tol="0")
        if good and res[0] == "ok":
            for d in range(dx):
                for k in range(nb):
                    one = np.asarray(alone[d][k][1][1])
                    rec.ev("same", what="kernel-fit-is-the-fit-of-each-entry", a=qa(np.asarray(res[1][1][d][k])), b=qa(one), tol=q(1e-9 * float(np.max(np.abs(one)))))
    elif p["kind"] == "asym":
        n = int(r.choice([20, 31]))
        dt = float(r.choice([0.25, 0.25, 2.0]))
        t = (np.arange(n) + int(r.choice([0, 1]))) * dt
        y = r.randint(-16, 17, size=n) / 8.0 / (1 + t) ** 2
        rec.ev("asymptotic", times=qa(t), data=qa(y), out=qa(np.asarray(fm.asymptotic_fit_integral(t, y))))
        for amp in (128.0, -(2.0**-8)):
            rec.ev("asymptotic", times=qa(t), data=qa(y * amp), out=qa(np.asarray(fm.asymptotic_fit_integral(t, y * amp))))
        tv = np.cumsum(r.randint(1, 9, size=n) / 16.0)  # any times
        rec.ev("asymptotic", times=qa(tv), data=qa(y), out=qa(np.asarray(fm.asymptotic_fit_integral(tv, y))))
        nb, dx = int(r.choice([1, 2, 3])), int(r.choice([1, 2]))
        K = r.randint(-16, 17, size=(n, nb, dx)) / 8.0
        for tt in (t, t.reshape(-1, 1)):
            rec.ev("friction", times=qa(t), K=qa(K), out=qa(np.asarray(fm.markovian_friction(tt, K)[1])))
        # the times need not be equally spaced: kernels of the second degree are integrated exactly
        tn = np.cumsum(r.randint(1, 9, size=21) / 16.0)
        for m in (21, 20, 15):
            c = r.randint(-16, 17, size=(3, nb, dx)) / 8.0
            K = c[0] + c[1] * tn[:m, None, None] + c[2] * tn[:m, None, None] ** 2
            rec.ev("fricquad", times=qa(tn[:m]), c=qa(c), out=qa(np.asarray(fm.markovian_friction(tn[:m], K)[1])))
    else:
        t = np.arange(10) * 0.25
        y = np.exp(-t)
        rec.ev("refused", what="unknown type of fit", outcome=rec.outcome(vb.memory_fit, t, y, type="lorentz"))
        rec.ev("refused", what="unknown type of evaluation", outcome=rec.outcome(vb.memory_fit_eval, t, [1.0, 1.0], type="lorentz"))
        rec.ev("refused", what="unknown type of evaluation", outcome=rec.outcome(vb.memory_fit_eval, t, ("lorentz", [1.0, 1.0])))
        rec.ev("refused", what="unknown type of a kernel fit", outcome=rec.outcome(vb.memory_fit_kernel, t, y.reshape(-1, 1, 1), type="lorentz"))
        rec.ev("refused", what="data of several columns", outcome=rec.outcome(vb.memory_fit, t, np.stack([y, y], axis=1)))
        rec.ev("refused", what="times of several columns", outcome=rec.outcome(vb.memory_fit, np.stack([t, t], axis=1), y))


if __name__ == "__main__":
    lib.main(cases, run)
